------------------------------- MODULE M_C12 --------------------------------
(***************************************************************************)
(* Exact free-fermion pure states: occupation vectors moved by braid         *)
(* rotations (kept without their factor 2^(-k/2)).  Every reachable state is *)
(* Gaussian: Wick's theorem, projector-valued two-point function, definite   *)
(* parity, which the rotations preserve.                                     *)
(***************************************************************************)
EXTENDS Ops
CONSTANTS N, L
VARIABLES psi, k, np
vars == <<psi, k, np>>
M == 2 * N
D == Dim(N)
Init == \E b \in 0..(D - 1) : psi = [c \in 1..D |-> IF c = b + 1 THEN COne ELSE CZero] /\ k = 0 /\ np = PopCount(b)
\* (1 + g_i g_j) psi
ApplyMaj(j, v) == TLCEval([c \in 1..D |->
    CSumTo([b \in 1..D |-> LET t == MajImage(N, j, b - 1) IN IF t[2] = c - 1 THEN CMul(t[1], v[b]) ELSE CZero], D)])
Next == /\ k < L
        /\ \E i, j \in 1..M : /\ i # j
             /\ LET w == ApplyMaj(i, ApplyMaj(j, psi)) IN psi' = TLCEval([c \in 1..D |-> CAdd(psi[c], w[c])])
             /\ k' = k + 1 /\ np' = np
Norm == SumTo([c \in 1..D |-> CAbs2(psi[c])], D)
NormOK == Norm = 2 ^ k
Parity == \A c \in 1..D : psi[c] # CZero => (PopCount(c - 1) - np) % 2 = 0
RECURSIVE Walk(_, _, _)
Walk(w, q, s) == IF q = 0 \/ s[1] = 0 THEN s ELSE Walk(w, q - 1, Act(N, w[q], s))
Ex(w) == CSumTo([b \in 1..D |-> LET t == Walk(w, Len(w), <<1, b - 1>>) IN
             IF t[1] = 0 THEN CZero ELSE CScale(t[1], CMul(CConj(psi[t[2] + 1]), psi[b]))], D)
P == MkMat(M, M, LAMBDA i, j : Ex(<<i, Adj(N, j)>>))
Projector == LET p == P IN CMatEq(CMatMul(p, p), CMatScale(2 ^ k, p))
Quads == {q \in [1..4 -> 1..M] : q[1] < q[2] /\ q[2] < q[3] /\ q[3] < q[4]}
WickExact == LET G == MkMat(M, M, LAMBDA i, j : Ex(<<i, j>>)) IN \A q \in Quads :
    CScale(2 ^ k, Ex(q)) = CAdd(CSub(CMul(G[q[1]][q[2]], G[q[3]][q[4]]), CMul(G[q[1]][q[3]], G[q[2]][q[4]])),
                                CMul(G[q[1]][q[4]], G[q[2]][q[3]]))
=============================================================================
