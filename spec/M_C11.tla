------------------------------- MODULE M_C11 --------------------------------
(***************************************************************************)
(* Free-fermion rotations, exactly: words in the braid generators            *)
(* (1 + g_i g_j) / sqrt2 of the Majorana operators g = sqrt2 * gamma.        *)
(* W is kept without its factor 2^(-k/2); C is the orbital rotation.         *)
(***************************************************************************)
EXTENDS Ops
CONSTANTS N, L
VARIABLES W, C, k
vars == <<W, C, k>>
M == 2 * N
D == Dim(N)
MajMat(j) == MkMat(D, D, LAMBDA r, c : LET t == MajImage(N, j, c - 1) IN IF t[2] = r - 1 THEN t[1] ELSE CZero)
Maj == TLCEval([j \in 1..M |-> MajMat(j)])
Braid(i, j) == CMatAdd(CIdent(D, 1), CMatMul(Maj[i], Maj[j]))
\* V^-1 g V for V = (1 + g_i g_j)/sqrt2 :  g_i -> g_j, g_j -> -g_i
BraidC(i, j) == MkMat(M, M, LAMBDA a, b :
    IF a = i THEN (IF b = j THEN COne ELSE CZero)
    ELSE IF a = j THEN (IF b = i THEN <<-1, 0>> ELSE CZero)
    ELSE IF a = b THEN COne ELSE CZero)
Init == W = CIdent(D, 1) /\ C = CIdent(M, 1) /\ k = 0
Next == /\ k < L
        /\ \E i, j \in 1..M : /\ i # j
             /\ W' = CMatMul(W, Braid(i, j))
             /\ C' = CMatMul(C, BraidC(i, j))
             /\ k' = k + 1
Unitary == CMatEq(CMatMul(CDagger(W), W), CIdent(D, 2 ^ k))
RotatesModes == \A i \in 1..M :
    CMatEq(CMatMul(Maj[i], W), CMatMul(W, Rotate(C, Maj)[i]))
ParityEven == \A r, c \in 1..D : (PopCount(r - 1) + PopCount(c - 1)) % 2 = 1 => W[r][c] = CZero
SpecialOrthogonal == CDet(C) = COne /\ CMatEq(CMatMul(C, CTransp(C)), CIdent(M, 1))
=============================================================================
