------------------------------- MODULE M_C06 --------------------------------
(***************************************************************************)
(* The lift of a quadratic form: coefficients are set one entry at a time.  *)
(***************************************************************************)
EXTENDS Ops, Coef, Json
CONSTANTS N, L
VARIABLES R, hist
vars == <<R, hist>>
M == 2 * N
Vals == {<<1, 0>>, <<0, 1>>, <<2, -1>>}
Init == R = CZeroMat(M, M) /\ hist = << >>
SetEntry(i, j, v) == /\ Len(hist) < L /\ R[i][j] = CZero
                     /\ R' = [R EXCEPT ![i][j] = v]
                     /\ hist' = Append(hist, <<i, j, v>>)
Next == \E i, j \in 1..M, v \in Vals : SetEntry(i, j, v)
JW == JWAlphas(N)
Op == Lift(N, R, FALSE)
AdjointLifts == CMatEq(CDagger(Op), Lift(N, CDagger(R), FALSE))
DirectLifts == CMatEq(Lift(N, R, TRUE), Lift(N, CMatMul(SSwap(N, 1), R), FALSE))
WalkIsDense == CMatEq(Op, LiftDense(R, JW, FALSE)) /\ CMatEq(Lift(N, R, TRUE), LiftDense(R, JW, TRUE))
\* with the upper blocks of R as A and B (made Hermitian / skew), the H and V
\* layouts lift to the same operator, whose commutators act as 2H on the alphas
A0 == LET X == BR(N, R) IN CMatAdd(X, CDagger(X))
B0 == LET X == TR(N, R) IN CMatSub(X, CTransp(X))
HOp == Lift(N, HForm(N, A0, B0), FALSE)
HV == CMatEq(HOp, Lift(N, VForm(N, A0, B0), TRUE))
Hermitian == CMatEq(HOp, CDagger(HOp))
Heisenberg == \A k \in 1..M :      \* [alpha_k, H^] = 2 sum_j H_kj alpha_j
    CMatEq(CMatSub(CMatMul(JW[k], HOp), CMatMul(HOp, JW[k])),
           CMatScale(2, Rotate(HForm(N, A0, B0), JW)[k]))
ParityEven == \A b, c \in 1..Dim(N) :
    (PopCount(b - 1) + PopCount(c - 1)) % 2 = 1 => Op[b][c] = CZero
Conserves == CMatEq(B0, CZeroMat(N, N)) => \A b, c \in 1..Dim(N) :
    PopCount(b - 1) # PopCount(c - 1) => HOp[b][c] = CZero
Emit == Len(hist) = L => PrintT("SCEN " \o ToJson([n |-> N, R |-> R]))
=============================================================================
