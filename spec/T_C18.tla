------------------------------- MODULE T_C18 --------------------------------
(* conformance of count_perfect_matchings_planar: out.c is the modulus of the
   returned number (an integer) *)
EXTENDS TraceShell, Graph
MyInit == [n |-> 0, ws |-> << >>, val |-> 0]
Ok(ev) == IF ev.exc # "" THEN {"must_return"} ELSE IF ~ev.out.ok THEN {"result_is_a_whole_number"} ELSE {}
MyStep(s, ev) ==
    IF ev.kind = "begin" THEN Stateless({}, [n |-> ev.n, ws |-> << >>, val |-> 0])
    ELSE IF ev.kind = "step" THEN      \* the edge ev.e = <<u, v, w>> was added
        LET u == ev.e[1]  v == ev.e[2]  w == ev.e[3]
            d == MatchSum(AdjW(s.n, s.ws), SelectSeq(Iota(s.n), LAMBDA x : x # u /\ x # v), FALSE)[1]
            t == [n |-> s.n, ws |-> Append(s.ws, ev.e), val |-> s.val + w * (IF s.n % 2 = 0 THEN d ELSE 0)]
        IN [st |-> t, fails |-> IF Ok(ev) # {} THEN Ok(ev) ELSE Clause("count_follows_added_edges", ev.out.c = Abs(t.val))]
    ELSE Stateless(IF Ok(ev) # {} THEN Ok(ev)
                   ELSE Clause("count_is_weighted_sum_over_matchings", ev.out.c = Abs(WCount(ev.n, ev.ws))), s)
=============================================================================
