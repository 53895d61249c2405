------------------------------- MODULE Gauss --------------------------------
(***************************************************************************)
(* Free-fermion states.  Fixed-point matrices (entries Gaussian FX).        *)
(*  - the matrix exponential, by scaling, series and squaring;              *)
(*  - correlators of a state, by walking the Fock machine;                  *)
(*  - the thermal state of a Hamiltonian, its Fermi-Dirac two-point         *)
(*    function, Wick's theorem.                                             *)
(***************************************************************************)
EXTENDS Ops, Coef

\* exact integer matrix / den -> fixed point   (den a power of two <= 2^24)
ToFX(A, den) == MkMat(Len(A), Cols(A), LAMBDA i, j : <<A[i][j][1] * (FXS \div den), A[i][j][2] * (FXS \div den)>>)
RowNorm(A) == MaxTo([i \in 1..Len(A) |-> SumTo([j \in 1..Cols(A) |-> Abs(A[i][j][1]) + Abs(A[i][j][2])], Cols(A))], Len(A))
\* x / 2^s, rounded to nearest
RECURSIVE Halvings(_, _)
Halvings(v, lim) == IF v <= lim THEN 0 ELSE 1 + Halvings(v \div 2, lim)
FDivPow(x, s) == IF s = 0 THEN x ELSE (x + 2 ^ (s - 1)) \div (2 ^ s)
FMatDivPow(A, s) == MkMat(Len(A), Cols(A), LAMBDA i, j : <<FDivPow(A[i][j][1], s), FDivPow(A[i][j][2], s)>>)
FMatDivInt(A, k) == MkMat(Len(A), Cols(A), LAMBDA i, j : <<A[i][j][1] \div k, A[i][j][2] \div k>>)
RECURSIVE MExpSeries(_, _, _, _)
MExpSeries(X, k, term, acc) ==
    IF k > 9 THEN acc
    ELSE LET t == FMatDivInt(FMatMul(term, X), k) IN MExpSeries(X, k + 1, t, CMatAdd(acc, t))
RECURSIVE MSquare(_, _)
MSquare(E, s) == IF s = 0 THEN E ELSE MSquare(FMatMul(E, E), s - 1)
\* exp(X) for a fixed-point X with row norm < 60 and exp(X) bounded by 8
MExp(X) == LET s == Halvings(RowNorm(X), FXS \div 2)
               Y == FMatDivPow(X, s)
               I == FIdent(Len(X))
           IN MSquare(MExpSeries(Y, 2, Y, CMatAdd(I, Y)), s)

\* exp(X) v for a column vector v (sequence of complex FX), X small
FMatVec(A, v) == LET m == Len(v) IN
    TLCEval([i \in 1..Len(A) |-> CSumTo([k \in 1..m |-> FXC(A[i][k], v[k])], m)])

\* Tr[rho w_1 w_2 ... w_m] for a word w of ladder operators (operator numbers)
RECURSIVE WalkWord(_, _, _, _)
WalkWord(n, w, k, s) == IF k = 0 \/ s[1] = 0 THEN s ELSE WalkWord(n, w, k - 1, Act(n, w[k], s))
TrWord(n, rho, w) ==
    CSumTo([b \in 1..Dim(n) |->
        LET t == WalkWord(n, w, Len(w), <<1, b - 1>>) IN
        IF t[1] = 0 THEN CZero ELSE CScale(t[1], rho[b][t[2] + 1])], Dim(n))
\* <psi| w |psi> for a column vector (FX)
ExpWord(n, psi, w) ==
    CSumTo([b \in 1..Dim(n) |->
        LET t == WalkWord(n, w, Len(w), <<1, b - 1>>) IN
        IF t[1] = 0 THEN CZero ELSE CScale(t[1], FXC(CConj(psi[t[2] + 1]), psi[b]))], Dim(n))
\* two-point functions  G_ij = Tr rho a_i a_j ,  P_ij = Tr rho a_i a_j^dagger
GMat(n, rho) == MkMat(2 * n, 2 * n, LAMBDA i, j : Tr2(n, rho, i, j))
PMat(n, rho) == MkMat(2 * n, 2 * n, LAMBDA i, j : Tr2(n, rho, i, Adj(n, j)))
\* Wick: the four-point function of q = <<i, j, k, l>> from two-point functions
Wick4(G, q) == LET g(a, b) == G[q[a]][q[b]] IN
    CAdd(CSub(FXC(g(1, 2), g(3, 4)), FXC(g(1, 3), g(2, 4))), FXC(g(1, 4), g(2, 3)))
WickOK(n, rho, G, q, tol) == CNear(TrWord(n, rho, q), Wick4(G, q), tol)

\* ---- the thermal state of an operator K (Gaussian integers / den).  shift
\* (same units) only keeps numbers in range: exp(-(K - shift)).
Boltzmann(K, den, shift) ==
    LET d == Len(K)
        X == MkMat(d, d, LAMBDA i, j : <<(IF i = j THEN shift - K[i][i][1] ELSE -K[i][j][1]) * (FXS \div den),
                                          (-K[i][j][2]) * (FXS \div den)>>)
    IN MExp(X)
\* rho Z = E with Z = tr E
IsThermal(rho, E, tol) ==
    LET z == CTrace(E) IN
    /\ z[1] > FXS \div 8 /\ z[1] <= 8 * FXS
    /\ \A i, j \in 1..Len(E) : CNear(FXRC(z[1], rho[i][j]), E[i][j], tol)
\* Fermi-Dirac for R in H form, |R| <= 2 in norm:  P = 1 / (1 + exp(-2R)), i.e.
\* (exp(R) + exp(-R)) P = exp(R)
FermiDirac(P, R, den, tol) ==
    LET X == ToFX(R, den)
        EP == MExp(X)
        EM == MExp(CMatNeg(X))
    IN CMatNear(FMatMul(CMatAdd(EP, EM), P), EP, tol)

NearHerm(A, tol) == CMatNear(A, CDagger(A), tol)
NearTraceOne(A, tol) == CNear(CTrace(A), <<FXS, 0>>, tol)
=============================================================================
