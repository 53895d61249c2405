------------------------------- MODULE M_C18 --------------------------------
(***************************************************************************)
(* Weighted graphs grown edge by edge (edges in increasing order) with the  *)
(* weighted number of perfect matchings they must have: a new edge uv of    *)
(* weight w adds w times the count of the graph without u and v.            *)
(***************************************************************************)
EXTENDS Graph, Json
CONSTANTS Ns, EMax, Ws
WDef == {1, -2}
VARIABLES n, ws, val
vars == <<n, ws, val>>
Init == n \in Ns /\ ws = << >> /\ val = 0
Later(u, v) == IF ws = << >> THEN TRUE ELSE LET t == ws[Len(ws)] IN (t[1] < u \/ (t[1] = u /\ t[2] < v))
Without(u, v) == MatchSum(AdjW(n, ws), SelectSeq(Iota(n), LAMBDA x : x # u /\ x # v), FALSE)[1]
Edge(u, v, w) == /\ Later(u, v) /\ Len(ws) < EMax
                 /\ ws' = Append(ws, <<u, v, w>>)
                 /\ val' = val + w * Without(u, v)
                 /\ UNCHANGED n
Next == \E u, v \in 1..n, w \in Ws : u < v /\ Edge(u, v, w)
Es == {<<ws[k][1], ws[k][2]>> : k \in 1..Len(ws)}
Tracked == val = WCount(n, ws)
OddIsZero == n % 2 = 1 => val = 0
\* the count factors over connected components
RECURSIVE CompProd(_)
CompProd(V) == IF V = {} THEN 1 ELSE
    LET C == Reach(Es, CHOOSE x \in V : TRUE)
        vs == SelectSeq(Iota(n), LAMBDA x : x \in C)
    IN MatchSum(AdjW(n, ws), vs, FALSE)[1] * CompProd(V \ C)
Factors == val = CompProd(1..n)
Emit == (Len(ws) > 0) => PrintT("SCEN " \o ToJson([n |-> n, ws |-> ws, val |-> val]))
=============================================================================
