------------------------------- MODULE M_C21 --------------------------------
(***************************************************************************)
(* Perfect matchings of a growing graph (a new edge uv contributes the      *)
(* matchings of the rest joined with uv), next to a machine searching them  *)
(* one vertex at a time; and rooted trees growing leaf by leaf with their   *)
(* depth.                                                                   *)
(***************************************************************************)
EXTENDS Graph, Json
CONSTANTS Ns, EMax, TMax
VARIABLES mode, n, E, ms, dist
vars == <<mode, n, E, ms, dist>>
Init == \/ /\ mode = "graph" /\ n \in Ns /\ E = {} /\ ms = (IF n = 0 THEN {{}} ELSE {}) /\ dist = << >>
        \/ /\ mode = "tree" /\ n = 1 /\ E = {} /\ ms = {} /\ dist = <<0>>
Rest(u, v) == MatchingsRec(SelectSeq(Iota(n), LAMBDA x : x # u /\ x # v), E)
Edge(u, v) == /\ mode = "graph" /\ <<u, v>> \notin E /\ Cardinality(E) < EMax
              /\ E' = E \cup {<<u, v>>}
              /\ ms' = (IF n % 2 = 1 THEN {} ELSE ms \cup {m \cup {<<u, v>>} : m \in Rest(u, v)})
              /\ UNCHANGED <<mode, n, dist>>
Leaf(u) == /\ mode = "tree" /\ n < TMax
           /\ n' = n + 1 /\ E' = E \cup {<<u, n + 1>>} /\ dist' = Append(dist, dist[u] + 1)
           /\ UNCHANGED <<mode, ms>>
Next == \/ \E u, v \in 1..n : u < v /\ Edge(u, v)
        \/ \E u \in 1..n : Leaf(u)
MatchingsRight == mode = "graph" => ms = Matchings(n, E)
EachIsPerfect == \A m \in ms : m \subseteq E /\ Cardinality(m) * 2 = n /\ UNION {{e[1], e[2]} : e \in m} = 1..n
AllOfThem == (mode = "graph" /\ n % 2 = 0) => ms = {m \in SUBSET E : Cardinality(m) * 2 = n /\ UNION {{e[1], e[2]} : e \in m} = 1..n}
CountIsHafnian == mode = "graph" => Cardinality(ms) = NMatchings(n, E)
DepthRight == mode = "tree" => Depth(E, 1) = MaxTo(dist, n)
Emit == PrintT("SCEN " \o ToJson([mode |-> mode, n |-> n, E |-> E]))
=============================================================================
