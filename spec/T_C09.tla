------------------------------- MODULE T_C09 --------------------------------
(* conformance of eigh_sp, eigv_sp, eigm_sp, eigm_sp_can.  All matrices are
   fixed point, the input and the eigenstructure in units of the input's size *)
EXTENDS TraceShell, Coef
Tol == 512
Near0(z) == Abs(z[1]) <= Tol /\ Abs(z[2]) <= Tol
Unitary(U) == CMatNear(FMatMul(U, CDagger(U)), FIdent(Len(U)), Tol)
IsReal(U) == \A i, j \in 1..Len(U) : Abs(U[i][j][2]) <= Tol
SympForm(n, U) == \A i, j \in 1..n : CNear(U[i + n][j + n], CConj(U[i][j]), Tol)
                                  /\ CNear(U[i][j + n], CConj(U[i + n][j]), Tol)
\* eigenstructures; a real factor (1) or an imaginary one (i)
Standard(n, L) == \A i, j \in 1..(2 * n) :
    IF i # j THEN Near0(L[i][j])
    ELSE Abs(L[i][i][2]) <= Tol /\ (i <= n => Abs(L[i][i][1] + L[i + n][i + n][1]) <= Tol)
YForm(n, L, p) == \A i, j \in 1..(2 * n) :      \* p: 1 real entries, 2 imaginary entries
    IF Abs(i - j) # n THEN Near0(L[i][j])
    ELSE Abs(L[i][j][3 - p]) <= Tol /\ Abs(L[i][j][p] + L[j][i][p]) <= Tol
Canon(n, L, p) == \A i, j \in 1..(2 * n) :
    IF i = j \/ (i + 1) \div 2 # (j + 1) \div 2 THEN Near0(L[i][j])
    ELSE Abs(L[i][j][3 - p]) <= Tol /\ Abs(L[i][j][p] + L[j][i][p]) <= Tol
Diagonalises(H, U, L) == CMatNear(FMatMul(H, U), FMatMul(U, L), Tol)       \* H U = U L
Congruence(V, U, L) == CMatNear(FMatMul(CTransp(U), FMatMul(V, U)), L, Tol)
EvEig(ev) ==
    IF ~ev.out.L.ok \/ ~ev.out.U.ok THEN {"eigenstructure_is_finite_and_square"}
    ELSE LET L == ev.out.L.m  U == ev.out.U.m  n == ev.n IN
    Clause("eigenvectors_orthonormal", Unitary(U))
    \cup (CASE ev.fn = "eigh_sp" ->
               Clause("symplectic_block_form", SympForm(n, U))
               \cup Clause("standard_eigenstructure", Standard(n, L))
               \cup Clause("diagonalises_the_input", Diagonalises(ev.H, U, L))
            [] ev.fn = "eigv_sp" ->
               Clause("symplectic_block_form", SympForm(n, U))
               \cup Clause("Y_eigenstructure", YForm(n, L, 1))
               \cup Clause("diagonalises_the_input", Congruence(ev.H, U, L))
            [] ev.fn = "eigm_sp" ->
               Clause("real_orthogonal", IsReal(U))
               \cup Clause("Y_eigenstructure", YForm(n, L, 2))
               \cup Clause("diagonalises_the_input", Congruence(ev.H, U, L))
            [] ev.fn = "eigm_sp_can" ->
               Clause("real_orthogonal", IsReal(U))
               \cup Clause("canonical_eigenstructure", Canon(n, L, 2))
               \cup Clause("diagonalises_the_input", Congruence(ev.H, U, L)))
Fails(ev) == IF ev.exc # "" THEN {"must_return"} ELSE EvEig(ev)
MyStep(s, ev) == Stateless(Fails(ev), s)
MyInit == 0
=============================================================================
