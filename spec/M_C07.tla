------------------------------- MODULE M_C07 --------------------------------
(* Two-point functions of a matrix rho filled entry by entry. *)
EXTENDS Ops, Coef, Json
CONSTANTS N, L
VARIABLES rho, hist
vars == <<rho, hist>>
D == Dim(N)
M == 2 * N
Vals == {<<1, 0>>, <<0, 1>>}
Init == rho = CZeroMat(D, D) /\ hist = << >>
SetEntry(i, j, v) == /\ Len(hist) < L /\ rho[i][j] = CZero
                     /\ rho' = [rho EXCEPT ![i][j] = v]
                     /\ hist' = Append(hist, <<i, j, v>>)
Next == \E i, j \in 1..D, v \in Vals : SetEntry(i, j, v)
JW == JWAlphas(N)
G == MkMat(M, M, LAMBDA i, j : Tr2(N, rho, i, j))
P == MkMat(M, M, LAMBDA i, j : Tr2(N, rho, i, Adj(N, j)))
E == MkMat(M, M, LAMBDA i, j : Tr2(N, rho, Adj(N, i), j))
WalkIsDense == \A i, j \in 1..M : G[i][j] = Tr2Dense(rho, JW[i], JW[j])
CARSum == CMatEq(CMatAdd(G, CTransp(G)), CMatCMul(CTrace(rho), SSwap(N, 1)))
Permuted == CMatEq(E, CMatMul(SSwap(N, 1), G)) /\ CMatEq(P, CMatMul(G, SSwap(N, 1)))
HermTogether == IsHerm(rho) => IsHerm(P) /\ IsHerm(E)
Complement == CMatEq(CMatAdd(P, CTransp(E)), CMatCMul(CTrace(rho), CIdent(M, 1)))
Emit == Len(hist) = L => PrintT("SCEN " \o ToJson([n |-> N, rho |-> rho]))
=============================================================================
