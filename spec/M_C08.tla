------------------------------- MODULE M_C08 --------------------------------
(***************************************************************************)
(* Thermal states.  A quadratic Hamiltonian is built term by term (a        *)
(* hopping/potential entry of A or a pairing entry of B); in every state    *)
(* the Gibbs state of the lifted operator obeys the Fermi-Dirac relation of *)
(* the coefficient matrix and Wick's theorem.                               *)
(***************************************************************************)
EXTENDS Gauss, Json
CONSTANTS N, L, DEN
VARIABLES A, B, hist
vars == <<A, B, hist>>
M == 2 * N
Vals == {<<1, 0>>, <<0, 1>>, <<-2, 1>>}
Init == A = CZeroMat(N, N) /\ B = CZeroMat(N, N) /\ hist = << >>
SetA(i, j, v) == /\ A[i][j] = CZero /\ (i = j => v[2] = 0)
                 /\ A' = [A EXCEPT ![i][j] = v, ![j][i] = CConj(v)]
                 /\ B' = B /\ hist' = Append(hist, <<0, i, j, v>>)
SetB(i, j, v) == /\ B[i][j] = CZero /\ i < j
                 /\ B' = [B EXCEPT ![i][j] = v, ![j][i] = CNeg(v)]
                 /\ A' = A /\ hist' = Append(hist, <<1, i, j, v>>)
Next == /\ Len(hist) < L
        /\ \E i, j \in 1..N, v \in Vals : i <= j /\ (SetA(i, j, v) \/ SetB(i, j, v))
R == HForm(N, A, B)
K == Lift(N, R, FALSE)
Shift == -RowNorm(K) - 1
Gibbs == LET E == Boltzmann(K, DEN, 0)      \* (norms here stay below 2)
             z == CTrace(E)[1]
         IN MkMat(Dim(N), Dim(N), LAMBDA i, j : <<FDiv(E[i][j][1], z), FDiv(E[i][j][2], z)>>)
T == 256
Checks ==
    LET rho == Gibbs  G == GMat(N, rho) IN
    /\ NearHerm(rho, T) /\ NearTraceOne(rho, T)
    /\ IsThermal(rho, Boltzmann(K, DEN, -1), 8 * T)      \* the shift is immaterial
    /\ FermiDirac(PMat(N, rho), R, DEN, 4 * T)
    /\ \A q \in {<<1, 2, 3, 4>>, <<1, 3, 2, 4>>, <<4, 2, 1, 3>>, <<1, 1, 3, 4>>, <<3, 1, 2, 2>>, <<4, 1, 4, 1>>} :
         WickOK(N, rho, G, q, 4 * T)
Inverse == LET X == ToFX(R, DEN) IN CMatNear(FMatMul(MExp(X), MExp(CMatNeg(X))), FIdent(M), 4 * T)
Emit == Len(hist) = L => PrintT("SCEN " \o ToJson([n |-> N, A |-> A, B |-> B]))
=============================================================================
