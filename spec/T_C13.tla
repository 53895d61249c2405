------------------------------- MODULE T_C13 --------------------------------
(***************************************************************************)
(* Conformance of sessions of seeded / unseeded calls.  The state remembers *)
(* the result (an identity tag given by the recorder: equal tags = equal    *)
(* values) of every seeded call and of every (generator term, call) pair.   *)
(* After a seeded call the generator's term is not relied upon.             *)
(***************************************************************************)
EXTENDS TraceShell
MyInit == [seeded |-> << >>, drawn |-> << >>, gen |-> <<"unknown", "0">>, fresh |-> 1, known |-> FALSE]
\* association lists
Has(a, k) == \E i \in 1..Len(a) : a[i][1] = k
Get(a, k) == a[CHOOSE i \in 1..Len(a) : a[i][1] = k][2]
Before(a, b) == Len(a) < Len(b) /\ SubSeq(b, 1, Len(a)) = a
Key(ev) == <<ev.fn, ev.arg>>
Forget(s) == [s EXCEPT !.gen = <<"unknown", ToString(s.fresh)>>, !.fresh = @ + 1, !.known = FALSE]
DoReseed(s, ev) == Stateless({}, [s EXCEPT !.gen = <<ToString(ev.s)>>, !.known = TRUE])
DoSeeded(s, ev) ==
    LET k == <<Key(ev), ev.s>> IN
    [st |-> Forget(IF Has(s.seeded, k) THEN s ELSE [s EXCEPT !.seeded = Append(@, <<k, ev.out.tag>>)]),
     fails |-> (IF ~Has(s.seeded, k) \/ Get(s.seeded, k) = ev.out.tag THEN {} ELSE {"same_seed_same_result"})
               \cup (IF ~ev.cont \/ \A i \in 1..Len(s.seeded) :
                          (s.seeded[i][1][1] = Key(ev) /\ s.seeded[i][1][2] # ev.s) => s.seeded[i][2] # ev.out.tag
                     THEN {} ELSE {"different_seeds_different_results"})]
DoUnseeded(s, ev) ==
    LET k == <<Key(ev), s.gen>> IN
    [st |-> [s EXCEPT !.gen = Append(s.gen, ev.fn \o ev.arg),
                      !.drawn = IF Has(s.drawn, k) THEN @ ELSE Append(@, <<k, ev.out.tag>>)],
     fails |-> (IF ~s.known \/ ~Has(s.drawn, k) \/ Get(s.drawn, k) = ev.out.tag THEN {} ELSE {"unseeded_follows_global_generator"})
               \* the generator has advanced since: another value
               \cup (IF ~ev.cont \/ \A i \in 1..Len(s.drawn) :
                          (s.drawn[i][1][1] = Key(ev) /\ Before(s.drawn[i][1][2], s.gen)) => s.drawn[i][2] # ev.out.tag
                     THEN {} ELSE {"unseeded_calls_draw_afresh"})]
MyStep(s, ev) ==
    IF ev.kind = "begin" THEN Stateless({}, MyInit)
    ELSE IF ev.exc # "" THEN Stateless({"must_return"}, Forget(s))
    ELSE CASE ev.kind = "reseed" -> DoReseed(s, ev)
           [] ev.kind = "seeded" -> DoSeeded(s, ev)
           [] ev.kind = "unseeded" -> DoUnseeded(s, ev)
=============================================================================
