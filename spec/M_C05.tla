------------------------------- MODULE M_C05 --------------------------------
(* All 2x2 blocks over a small value set, filled entry by entry. *)
EXTENDS Coef, Json
CONSTANTS Max
VARIABLES A, B, k
vars == <<A, B, k>>
N == 2
VSet == {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<-1, 1>>}
Init == A = CZeroMat(N, N) /\ B = CZeroMat(N, N) /\ k = 0
SetA == \E v \in VSet : A' = [A EXCEPT ![(k \div N) + 1][(k % N) + 1] = v] /\ UNCHANGED B
SetB == \E v \in VSet : B' = [B EXCEPT ![((k - 4) \div N) + 1][((k - 4) % N) + 1] = v] /\ UNCHANGED A
Next == k < Max /\ k' = k + 1 /\ (IF k < 4 THEN SetA ELSE SetB)
H == HForm(N, A, B)
V == VForm(N, A, B)
HermIff == IsHerm(H) <=> (IsHerm(A) /\ IsSkew(B))
VSkewIff == IsSkew(V) <=> (IsHerm(A) /\ IsSkew(B))
Relation == CMatEq(CMatMul(SSwap(N, 1), V), H)
ParticleHole == CMatEq(CMatMul(CMatMul(SSwap(N, 1), H), SSwap(N, 1)), NegConj(H))
ASSUME \A mu, t, d \in {-1, 0, 2} : \A n \in 1..3 :
    IsHerm(KitaevA(n, mu, t)) /\ IsSkew(KitaevB(n, d))
Emit == (k = Max /\ A[1][1] = <<-1, 1>> /\ B[1][2] = <<0, 1>>) =>
          PrintT("SCEN " \o ToJson([A |-> A, B |-> B]))
=============================================================================
