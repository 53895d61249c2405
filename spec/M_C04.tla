------------------------------- MODULE M_C04 --------------------------------
(***************************************************************************)
(* Rotation sessions: the state is a list of operators, each step rotates   *)
(* it by a generator.  Invariants: successive rotations compose, and the    *)
(* anticommutator matrix transforms as C S C^T.                             *)
(***************************************************************************)
EXTENDS Ops, Json
CONSTANTS N, L
VARIABLES al, C, hist
vars == <<al, C, hist>>
M == 2 * N
Id == CIdent(M, 1)
Swap == MkMat(M, M, LAMBDA i, j : IF (i = 1 /\ j = 2) \/ (i = 2 /\ j = 1) \/ (i = j /\ i > 2) THEN COne ELSE CZero)
Phase == MkMat(M, M, LAMBDA i, j : IF i # j THEN CZero ELSE IF i = 1 THEN <<0, 1>> ELSE COne)
Shear == MkMat(M, M, LAMBDA i, j : IF i = j THEN COne ELSE IF i = 1 /\ j = M THEN <<1, -1>> ELSE CZero)
Shift == MkMat(M, M, LAMBDA i, j : IF j = (i % M) + 1 THEN COne ELSE CZero)
Gens == <<Swap, Phase, Shear, Shift>>
JW == JWAlphas(N)
SJW == AlgebraS(JW)
Init == al = JW /\ C = Id /\ hist = << >>
DoRot(g) == /\ Len(hist) < L
            /\ al' = Rotate(Gens[g], al) /\ C' = CMatMul(Gens[g], C)
            /\ hist' = Append(hist, [g |-> Gens[g], left |-> FALSE])
DoLeft(g) == /\ Len(hist) < L
             /\ al' = RotateLeft(Gens[g], al) /\ C' = CMatMul(CDagger(Gens[g]), C)
             /\ hist' = Append(hist, [g |-> Gens[g], left |-> TRUE])
Next == \E g \in 1..Len(Gens) : DoRot(g) \/ DoLeft(g)
Composes == \A j \in 1..M : CMatEq(al[j], Rotate(C, JW)[j])
SCovariant == CMatEq(AlgebraS(al), CMatMul(CMatMul(C, SJW), CTransp(C)))
Scalar == \A i, j \in 1..M : LET x == FullAnti(al[i], al[j]) s == x[1][1] IN
            CMatEq(x, MkMat(Len(x), Len(x), LAMBDA a, b : IF a = b THEN s ELSE CZero))
CanonicalS == \A i, j \in 1..M : SJW[i][j] = IF Abs(i - j) = N THEN COne ELSE CZero
Emit == Len(hist) = L => PrintT("SCEN " \o ToJson([n |-> N, steps |-> hist]))
=============================================================================
