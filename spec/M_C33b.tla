------------------------------- MODULE M_C33b -------------------------------
(***************************************************************************)
(* The set of stabilizer states, grown by Clifford gates until it is closed:  *)
(* its average weights are those of uniformly distributed states up to the    *)
(* third moment, so that both distributions can be told apart only by more.   *)
(***************************************************************************)
EXTENDS Tableau, Haar
CONSTANT NQ
VARIABLE S
First(x) == LET k == CHOOSE k \in 1..Len(x) : x[k] # CZero /\ \A i \in 1..(k - 1) : x[i] = CZero IN x[k]
Normal(x) == LET f == First(x) s == CAbs2(f) IN
    TLCEval([i \in 1..Len(x) |-> LET z == CMul(CConj(f), x[i]) IN <<z[1] \div s, z[2] \div s>>])
Ops == {<<"h", q>> : q \in 1..NQ} \cup {<<"s", q>> : q \in 1..NQ} \cup {<<"cx", q, r>> : q \in 1..NQ, r \in 1..NQ}
Gates == {op \in Ops : op[1] = "cx" => op[2] # op[3]}
Image(T) == UNION {{Normal(Apply(NQ, x, op)) : x \in T} : op \in Gates}
D == 2 ^ NQ
Init == S = {<<COne>> \o [i \in 1..(D - 1) |-> CZero]}
Next == ~(Image(S) \subseteq S) /\ S' = S \cup Image(S)
Closed == Image(S) \subseteq S
RECURSIVE SetSum(_, _)
SetSum(f(_), T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN f(x) + SetSum(f, T \ {x})
\* |x_i|^2 as a fraction of 2^NQ: the squared norm is a power of two, at most D
W(x, i) == CAbs2(x[i]) * (D \div Norm2(x))
Average(f(_), k, e) == SetSum(f, S) * e[2] = e[1] * Cardinality(S) * (D ^ k)
All == Closed => Cardinality(S) = StabCount(NQ, NQ)
ThirdDesign == Closed => \A i \in 1..D :
    /\ Average(LAMBDA x : W(x, i), 1, SimM(D, 1)) /\ Average(LAMBDA x : W(x, i) ^ 2, 2, SimM(D, 2)) /\ Average(LAMBDA x : W(x, i) ^ 3, 3, SimM(D, 3))
    /\ \A j \in (i + 1)..D : Average(LAMBDA x : W(x, i) * W(x, j), 2, SimM11(D))
Re(x, i, j) == CMul(x[i], CConj(x[j]))[1] * (D \div Norm2(x))
Im(x, i, j) == CMul(x[i], CConj(x[j]))[2] * (D \div Norm2(x))
Coherences == Closed => \A i \in 1..D : \A j \in (i + 1)..D :
    /\ Average(LAMBDA x : Re(x, i, j), 1, <<0, 1>>) /\ Average(LAMBDA x : Im(x, i, j), 1, <<0, 1>>)
    /\ Average(LAMBDA x : 2 * Re(x, i, j) ^ 2, 2, SimM11(D)) /\ Average(LAMBDA x : 2 * Im(x, i, j) ^ 2, 2, SimM11(D))
\* two states: the mean squared overlap
Overlap == Closed => LET z == [i \in 1..D |-> IF i = 1 THEN COne ELSE CZero] IN z \in S /\ Average(LAMBDA x : W(x, 1) * W(z, 1), 2, SimM(D, 1))
Bounds == \A x \in S : D % Norm2(x) = 0
=============================================================================
