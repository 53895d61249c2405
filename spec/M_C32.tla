------------------------------- MODULE M_C32 --------------------------------
(***************************************************************************)
(* All stabilizer states: Clifford gates and measurements on state vectors    *)
(* (up to a factor), the stabilizer group carried along.  Next to them a      *)
(* register filled by choosing K distinct places.                            *)
(***************************************************************************)
EXTENDS Tableau, Json
CONSTANT N
VARIABLES v, G
vars == <<v, G>>
\* divided by the first nonzero entry
First(x) == LET k == CHOOSE k \in 1..Len(x) : x[k] # CZero /\ \A i \in 1..(k - 1) : x[i] = CZero IN x[k]
Normal(x) == LET f == First(x) s == CAbs2(f) IN
    TLCEval([i \in 1..Len(x) |-> LET z == CMul(CConj(f), x[i]) IN <<z[1] \div s, z[2] \div s>>])
Exact(x) == LET f == First(x) s == CAbs2(f) IN \A i \in 1..Len(x) : LET z == CMul(CConj(f), x[i]) IN z[1] % s = 0 /\ z[2] % s = 0
Ops == {<<"h", q>> : q \in 1..N} \cup {<<"s", q>> : q \in 1..N} \cup {<<"cx", q, r>> : q \in 1..N, r \in 1..N}
Init == v = Start(N) /\ G = {<<e, 1>> : e \in {e \in 0..(4 ^ N - 1) : \A q \in 0..(N - 1) : Letter(N, e, q) \in {0, 3}}}
Gate(op) == /\ op[1] = "cx" => op[2] # op[3]
            /\ LET x == TLCEval(Apply(N, v, op)) IN Assert(Exact(x), "common factor") /\ v' = Normal(x)
            /\ G' = {ConjGate(N, g, op) : g \in G}
Measure(q, o) == /\ CanMeasure(N, G, q, o)
                 /\ v' = Normal(Project(N, v, q, o)) /\ G' = Collapse(N, G, q, o)
Next == (\E op \in Ops : Gate(op)) \/ (\E q \in 1..N, o \in {1, -1} : Measure(q, o))
rho == Outer(v)
Group == IsGroup(N, G)
\* the strings of the group have expectation +-1, all others 0
Fixes == LET R == TLCEval(rho) n2 == Norm2(v) IN \A e \in 0..(4 ^ N - 1) :
    LET x == PExpect(N, e, R) IN IF <<e, 1>> \in G THEN x = <<n2, 0>> ELSE IF <<e, -1>> \in G THEN x = <<-n2, 0>> ELSE x = CZero
\* the same for the strings of the group only (the squares of all expectations
\* add up to 2^n n2^2, so the others vanish)
FixesG == LET R == TLCEval(rho) n2 == Norm2(v) IN \A g \in G : PExpect(N, g[1], R) = <<g[2] * n2, 0>>
Flat == \A i \in 1..(2 ^ N) : CAbs2(v[i]) \in {0, 1}
Emit == PrintT("SCEN " \o ToJson([n |-> N, v |-> v]))
=============================================================================
