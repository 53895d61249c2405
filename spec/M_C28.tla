------------------------------- MODULE M_C28 --------------------------------
(***************************************************************************)
(* Two distributions filled count by count, and the distances between them.  *)
(***************************************************************************)
EXTENDS Prob, Json
CONSTANTS N, T
VARIABLES c, e
vars == <<c, e>>
Init == \E n \in 1..N : c = [i \in 1..n |-> 0] /\ e = [i \in 1..n |-> 0]
d == SumSeq(c)
f == SumSeq(e)
Left(i) == d < T /\ f = 0 /\ c' = [c EXCEPT ![i] = @ + 1] /\ UNCHANGED e
Right(i) == d > 0 /\ f < T /\ e' = [e EXCEPT ![i] = @ + 1] /\ UNCHANGED c
Next == \E i \in 1..Len(c) : Left(i) \/ Right(i)
Ready == d > 0 /\ f > 0
Same == \A i \in 1..Len(c) : c[i] * f = e[i] * d
Disjoint == Support(c) \cap Support(e) = {}
Tol == 400
Finite == Inside(c, e)
TVok == Ready => LET t == TV2(c, d, e, f) IN t >= 0 /\ t <= 2 * d * f /\ (t = 0) = Same /\ (t = 2 * d * f) = Disjoint /\ t = TV2(e, f, c, d)
BCok == Ready => LET b == Bhatta(c, d, e, f) IN
    /\ b <= FXS + Tol /\ (Disjoint => b = 0) /\ (Same => b >= FXS - Tol)
    /\ Abs(b - Bhatta(e, f, c, d)) <= Tol
    \* Fuchs - van de Graaf:  1 - b <= tv <= sqrt(1 - b^2)
    /\ LET tv == FRat(TV2(c, d, e, f), 2 * d * f) IN
         FXS - b <= tv + Tol /\ FMul(tv, tv) <= FXS - FMul(b, b) + Tol
KLok == Ready /\ Finite => LET k == KL(c, d, e, f) tv == FRat(TV2(c, d, e, f), 2 * d * f) IN
    /\ k >= -Tol /\ (Same => k <= Tol)
    /\ k >= 2 * FMul(tv, tv) - Tol                       \* Pinsker
JSok == Ready => LET j == JS(c, d, e, f) IN
    /\ j >= -Tol /\ j <= FLN2 + Tol /\ (Same => j <= Tol) /\ (Disjoint => j >= FLN2 - Tol)
    /\ Abs(j - JS(e, f, c, d)) <= Tol
    /\ Inside(c, Mid(c, d, e, f)) /\ Inside(e, Mid(c, d, e, f))
\* entropy of the mean minus the mean entropy
JSEntropy == Ready => LET m == Mid(c, d, e, f) IN
    Abs(JS(c, d, e, f) - (Shannon(m, 2 * d * f) - (Shannon(c, d) + Shannon(e, f)) \div 2)) <= Tol
Emit == f = T => PrintT("SCEN " \o ToJson([c |-> c, e |-> e]))
=============================================================================
