------------------------------- MODULE M_C09 --------------------------------
(***************************************************************************)
(* The quadratic Hamiltonians the eigensolvers are defined on, built term   *)
(* by term (small integer entries: highly degenerate, often singular), in   *)
(* their three layouts: H form, V form and Majorana form.                   *)
(***************************************************************************)
EXTENDS Coef, Json
CONSTANTS N, L
VARIABLES A, B, hist
vars == <<A, B, hist>>
M == 2 * N
Vals == {<<1, 0>>, <<0, -1>>, <<-2, 0>>}
Init == A = CZeroMat(N, N) /\ B = CZeroMat(N, N) /\ hist = << >>
SetA(i, j, v) == /\ A[i][j] = CZero /\ (i = j => v[2] = 0)
                 /\ A' = [A EXCEPT ![i][j] = v, ![j][i] = CConj(v)]
                 /\ B' = B /\ hist' = Append(hist, <<0, i, j, v>>)
SetB(i, j, v) == /\ B[i][j] = CZero /\ i < j
                 /\ B' = [B EXCEPT ![i][j] = v, ![j][i] = CNeg(v)]
                 /\ A' = A /\ hist' = Append(hist, <<1, i, j, v>>)
Next == /\ Len(hist) < L
        /\ \E i, j \in 1..N, v \in Vals : i <= j /\ (SetA(i, j, v) \/ SetB(i, j, v))
H == HForm(N, A, B)
V == VForm(N, A, B)
S == SSwap(N, 1)
\* sqrt2 * Omega: the Majorana rotation in the library's convention
Om == MkMat(M, M, LAMBDA i, j :
        IF i <= N THEN (IF j = i \/ j = i + N THEN COne ELSE CZero)
        ELSE IF j = i - N THEN <<0, 1>> ELSE IF j = i THEN <<0, -1>> ELSE CZero)
Maj2 == CMatMul(CMatMul(Om, H), CDagger(Om))          \* 2 G
OmegaUnitary == CMatEq(CMatMul(Om, CDagger(Om)), CIdent(M, 2))
ThreeLayouts == LET h == H  g == Maj2 IN
                /\ CMatEq(CMatMul(S, V), h)
                /\ CMatEq(CMatMul(CMatMul(S, CTransp(h)), S), CMatNeg(h))
                /\ IsHerm(h) /\ IsSkew(g)
                /\ \A i, j \in 1..M : g[i][j][1] = 0
\* the spectrum is symmetric: det(H - x) = det(H + x)
Symmetric == LET h == H IN \A x \in 0..2 : CDet(CMatSub(h, CIdent(M, x))) = CDet(CMatAdd(h, CIdent(M, x)))
Emit == Len(hist) = L => PrintT("SCEN " \o ToJson([n |-> N, A |-> A, B |-> B]))
=============================================================================
