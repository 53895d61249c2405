------------------------------- MODULE M_C31 --------------------------------
(***************************************************************************)
(* A one-parameter path is the orbit of a vector under the powers of one     *)
(* unitary.  U is built as a word of exact unitaries (Gaussian integers over  *)
(* 5^r); x is the orbit x_0 .. x_K.  The straight line between x_0 and x_K    *)
(* is followed next to it.                                                    *)
(***************************************************************************)
EXTENDS Path, Json
CONSTANTS D, L, K, R
VARIABLES U, r, word, x
vars == <<U, r, word, x>>
\* generators: swap neighbours, phase i, rotation (3, -4; 4, 3) scaled by 5
Swap(q) == MkMat(D, D, LAMBDA i, j : IF (i = q /\ j = q + 1) \/ (i = q + 1 /\ j = q) THEN COne ELSE IF i = j /\ i # q /\ i # q + 1 THEN COne ELSE CZero)
Phase(q) == MkMat(D, D, LAMBDA i, j : IF i # j THEN CZero ELSE IF i = q THEN <<0, 1>> ELSE COne)
Rot(q) == MkMat(D, D, LAMBDA i, j : IF i = q /\ j = q + 1 THEN <<-4, 0>> ELSE IF i = q + 1 /\ j = q THEN <<4, 0>>
                                    ELSE IF i = j THEN (IF i = q \/ i = q + 1 THEN <<3, 0>> ELSE <<5, 0>>) ELSE CZero)
Starts == {[i \in 1..D |-> IF i = 1 THEN COne ELSE CZero], [i \in 1..D |-> IF i = D THEN <<0, 2>> ELSE IF i = 1 THEN <<1, 0>> ELSE CZero],
           [i \in 1..D |-> <<1, (i % 2)>>]}
Init == U = CIdent(D, 1) /\ r = 0 /\ word = << >> /\ \E w \in Starts : x = <<w>>
Building == Len(x) = 1 /\ Len(word) < L
Gen(g) == /\ Building /\ word' = Append(word, g) /\ UNCHANGED x
          /\ U' = TLCEval(CMatMul(CASE g[1] = "s" -> Swap(g[2]) [] g[1] = "p" -> Phase(g[2]) [] g[1] = "r" -> Rot(g[2]), U))
          /\ r' = r + (IF g[1] = "r" THEN 1 ELSE 0)
VMul(A, v) == TLCEval([i \in 1..D |-> CSumTo([j \in 1..D |-> CMul(A[i][j], v[j])], D)])
Move == Len(x) <= K /\ x' = Append(x, VMul(U, x[Len(x)])) /\ UNCHANGED <<U, r, word>>
Next == (\E q \in 1..(D - 1) : Gen(<<"s", q>>) \/ (r < R /\ Gen(<<"r", q>>))) \/ (\E q \in 1..D : Gen(<<"p", q>>)) \/ Move
\* x_k carries the factor 5^(r k)
F == 5 ^ r
Unitary == CMatEq(CMatMul(CDagger(U), U), CIdent(D, F * F))
NormKept == \A k \in 1..Len(x) : Norm2(x[k]) = Norm2(x[1]) * (F ^ (2 * (k - 1)))
\* overlaps only depend on the difference of the times
Stationary == \A k \in 1..Len(x), d \in 0..K : k + d <= Len(x) => LET a == IP(x[k], x[k + d]) b == IP(x[1], x[1 + d]) IN
    a = CScale(F ^ (2 * (k - 1)), b)
\* the straight line, scaled:  y_s = (K - s) F^K x_0 + s x_K
w == x[1]
v == x[Len(x)]
N0 == F ^ (Len(x) - 1)
Y(s) == [i \in 1..D |-> CAdd(CScale((Len(x) - 1 - s) * N0, w[i]), CScale(s, v[i]))]
Line == Len(x) = K + 1 =>
    /\ Y(0) = [i \in 1..D |-> CScale(K * N0, w[i])] /\ Y(K) = [i \in 1..D |-> CScale(K, v[i])]
    /\ \A s \in 0..K : /\ IsZeroV(Y(s)) = (Opposite(w, v) /\ 2 * s = K)
                       /\ Norm2(Y(s)) = (K - s) * (K - s) * N0 * N0 * Norm2(w) + s * s * Norm2(v) + 2 * s * (K - s) * N0 * IP(w, v)[1]
\* normalising: unit length, the same direction
UnitOK == \A k \in 1..Len(x) : LET u == Unit(x[k]) IN
    /\ Abs(FNorm2(u) - FXS) <= 64
    /\ \A i \in 1..D : (x[k][i] = CZero) = (u[i] = CZero)
    /\ \A i \in 1..D : Sgn(u[i][1]) = Sgn(x[k][i][1]) /\ Sgn(u[i][2]) = Sgn(x[k][i][2])
Emit == Len(x) = 2 => PrintT("SCEN " \o ToJson([w |-> x[1], v |-> x[2]]))
=============================================================================
