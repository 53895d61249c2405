------------------------------- MODULE M_C33c -------------------------------
(***************************************************************************)
(* Histories counted exactly.                                                *)
(*   urn      Balls are added to D cells, to a cell with s balls in s + 1     *)
(*            ways.  All contents have equally many histories: the uniform    *)
(*            distribution on the lattice points of a simplex, whose          *)
(*            factorial moments are those of the uniform distribution on      *)
(*            the simplex (exponents all one).                                *)
(*   choose   Places are chosen one by one, never twice: all sets are         *)
(*            equally likely.  With "again" a place may be chosen twice;      *)
(*            TLC refutes Even.                                              *)
(* H is the set of <<content, number of histories>>.                          *)
(***************************************************************************)
EXTENDS Haar
CONSTANTS WHICH, D, LMAX
VARIABLES H, L
vars == <<H, L>>
Ways(s, i) == CASE WHICH = "urn" -> s[i] + 1 [] WHICH = "choose" -> (IF s[i] = 0 THEN 1 ELSE 0) [] WHICH = "again" -> 1
Plus(s, i) == IF WHICH = "urn" THEN [s EXCEPT ![i] = @ + 1] ELSE [s EXCEPT ![i] = 1]
RECURSIVE SetSum(_, _)
SetSum(f(_), T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN f(x) + SetSum(f, T \ {x})
\* over the predecessors and the cells leading to t
Steps(t) == {<<h[1], i, IF Plus(h[1], i) = t THEN h[2] * Ways(h[1], i) ELSE 0>> : h \in H, i \in 1..D}
Init == H = {<<[i \in 1..D |-> 0], 1>>} /\ L = 0
Next == L < LMAX /\ L' = L + 1
        /\ LET T == {Plus(h[1], i) : h \in H, i \in 1..D} IN
           H' = {x \in {<<t, SetSum(LAMBDA p : p[3], Steps(t))>> : t \in T} : x[2] > 0}
Even == \A g, h \in H : g[2] = h[2]
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
RECURSIVE Choose(_, _)
Choose(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Choose(n - 1, k - 1) + Choose(n - 1, k)
Count == Cardinality(H) = IF WHICH = "urn" THEN Choose(D + L - 1, L) ELSE Choose(D, L)
\* falling factorials s (s-1) .. over L (L-1) ..
RECURSIVE Falling(_, _)
Falling(s, k) == IF k = 0 THEN 1 ELSE s * Falling(s - 1, k - 1)
Avg(f(_), k, e) == SetSum(LAMBDA h : f(h[1]), H) * e[2] = e[1] * Cardinality(H) * Falling(L, k)
Moments == WHICH = "urn" => \A i \in 1..D :
    /\ \A k \in 1..4 : Avg(LAMBDA s : Falling(s[i], k), k, SimM(D, k))
    /\ \A j \in (i + 1)..D : Avg(LAMBDA s : s[i] * s[j], 2, SimM11(D)) /\ Avg(LAMBDA s : Falling(s[i], 2) * Falling(s[j], 2), 4, SimM22(D))
\* a place is taken in k out of n cases, two places in k (k - 1) out of n (n - 1)
Taken == WHICH = "choose" => /\ \A i \in 1..D : Cardinality({h \in H : h[1][i] = 1}) * D = L * Cardinality(H)
                             /\ \A i, j \in 1..D : i # j => Cardinality({h \in H : h[1][i] = 1 /\ h[1][j] = 1}) * D * (D - 1) = L * (L - 1) * Cardinality(H)
=============================================================================
