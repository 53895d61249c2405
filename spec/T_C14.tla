------------------------------- MODULE T_C14 --------------------------------
(* conformance: isolation of calls from each other and from the caller *)
EXTENDS TraceShell
MyInit == << >>
Has(a, k) == \E i \in 1..Len(a) : a[i][1] = k
Get(a, k) == a[CHOOSE i \in 1..Len(a) : a[i][1] = k][2]
MyStep(s, ev) ==
    IF ev.kind = "begin" THEN Stateless({}, MyInit)
    ELSE IF ev.kind \in {"scribble", "rewrite"} THEN Stateless({}, s)     \* the caller's own objects only
    ELSE LET k == <<ev.fn, ev.arg>> IN
         [st |-> IF ev.exc # "" \/ Has(s, k) \/ ~ev.det THEN s ELSE Append(s, <<k, ev.out.tag>>),
          fails |-> (IF ev.exc # "" THEN {"must_return"} ELSE {})
             \cup Clause("arguments_unmodified", ev.out.after = ev.before)
             \cup Clause("repeated_call_gives_same_result",
                         (ev.exc = "" /\ ev.det /\ Has(s, k)) => Get(s, k) = ev.out.tag)
             \cup Clause("deterministic_call_leaves_random_generators", ev.det => ev.out.rng = ev.rng)
             \cup Clause("print_options_restored", ev.out.po = ev.po)]
=============================================================================
