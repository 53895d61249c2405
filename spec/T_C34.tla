------------------------------- MODULE T_C34 --------------------------------
(***************************************************************************)
(* Normal modes across the library.  A session is one coefficient matrix H;  *)
(* the state of the specification keeps what the session has established:    *)
(* the coefficients, their eigenvectors and mode energies, the normal modes, *)
(* the many-body operator and the thermal state.  All numbers fixed point.   *)
(***************************************************************************)
EXTENDS TraceShell, Rot
Tol == 1024
Nothing == [stage |-> 0]
HFormF(n, H) == \A i, j \in 1..n :
    /\ CNear(H[i][j], CNeg(CConj(H[i + n][j + n])), 4)
    /\ CNear(H[i + n][j], CNeg(CConj(H[i][j + n])), 4)
    /\ CNear(H[i][j + n], CNeg(H[j][i + n]), 4)
    /\ CNear(H[i][j], CConj(H[j][i]), 4)
Sig(s) == [p \in 1..s.n |-> s.L[p + s.n][p + s.n][1]]
\* ---- eigh_sp of the coefficients
EvModes(ev) ==
    IF ~ev.out.L.ok \/ ~ev.out.U.ok \/ ~ev.out.H.ok THEN {"finite_results_of_the_right_shape"}
    ELSE LET n == ev.n  H == ev.out.H.m  L == ev.out.L.m  U == ev.out.U.m IN
    Clause("coefficients_in_H_form", HFormF(n, H))
    \cup Clause("eigenvectors_orthonormal", FUnitary(U, Tol))
    \cup Clause("eigenvectors_symplectic", SympS(n, U, Tol) /\ BlockForm(n, U, Tol))
    \cup Clause("energies_in_pairs", \A i, j \in 1..(2 * n) :
            IF i # j THEN Abs(L[i][j][1]) <= Tol /\ Abs(L[i][j][2]) <= Tol
            ELSE Abs(L[i][i][2]) <= Tol /\ (i <= n => Abs(L[i][i][1] + L[i + n][i + n][1]) <= Tol))
    \cup Clause("diagonalises", CMatNear(FMatMul(H, U), FMatMul(U, L), Tol))
GoModes(ev) ==    [stage |-> 1, sess |-> ev.sess, n |-> ev.n, H |-> ev.out.H.m, L |-> ev.out.L.m, U |-> ev.out.U.m]
\* ---- the normal modes  b_i = sum_j conj(U_ji) alpha_j
ModeEntry(s, i, r, c) == CSumTo([j \in 1..(2 * s.n) |-> LET t == Ladder(s.n, j, c - 1) IN
    IF t[1] # 0 /\ t[2] = r - 1 THEN CScale(t[1], CConj(s.U[j][i])) ELSE CZero], 2 * s.n)
EvQuasi(s, ev) ==
    IF ~(\A i \in 1..Len(ev.out.b) : ev.out.b[i].ok) \/ Len(ev.out.b) # 2 * s.n \/ ~ev.out.S.ok
    THEN {"finite_results_of_the_right_shape"}
    ELSE LET n == s.n  b == ev.out.b IN
    Clause("modes_are_the_rotated_operators", \A i \in 1..(2 * n), r, c \in 1..Dim(n) :
            CNear(b[i].m[r][c], ModeEntry(s, i, r, c), Tol))
    \cup Clause("modes_in_adjoint_pairs", \A i \in 1..n : CMatNear(b[i].m, CDagger(b[i + n].m), Tol))
    \cup Clause("modes_anticommute_canonically", CMatNear(ev.out.S.m, SSwap(n, FXS), Tol))
GoQuasi(s, ev) == [s EXCEPT !.stage = 2] @@ [b |-> TLCEval([i \in 1..(2 * s.n) |-> ev.out.b[i].m])]
\* ---- the many-body operator
\* (K b - b K) = -2 sig b  for the annihilators
Lowers(s, K, i, e) == LET b == s.b[i] IN
    CMatNear(CMatSub(FMatMul(K, b), FMatMul(b, K)), MkMat(Dim(s.n), Dim(s.n), LAMBDA r, c : CNeg(FXRC(2 * e, b[r][c]))), Tol)
FSq(s) == SumTo([p \in 1..s.n |-> FMul(Sig(s)[p], Sig(s)[p])], s.n)
FQ4(s) == SumTo([p \in 1..s.n |-> LET q == FMul(Sig(s)[p], Sig(s)[p]) IN FMul(q, q)], s.n)
FTrace2(A, B) == CSumTo([i \in 1..Len(A) |-> CSumTo([j \in 1..Len(A) |-> FXC(A[i][j], B[j][i])], Len(A))], Len(A))
EvLift(s, ev) ==
    IF ~ev.out.K.ok \/ ~ev.out.K2.ok THEN {"finite_results_of_the_right_shape"}
    ELSE LET n == s.n  K == ev.out.K.m  k2 == TLCEval(FMatMul(K, K))  d == Dim(n) IN
    Clause("lift_hermitian", NearHerm(K, 64))
    \cup Clause("lift_is_the_sum_of_the_modes", CMatNear(K, ev.out.K2.m, Tol))
    \cup Clause("modes_lower_the_energy_by_twice_theirs", \A i \in 1..n : Lowers(s, K, i + n, Sig(s)[i]))
    \cup Clause("spectrum_is_all_sums_of_energies",
            /\ Abs(CTrace(K)[1]) <= Tol * d
            /\ Abs(CTrace(k2)[1] - d * FSq(s)) <= 2 * Tol * d
            /\ Abs(FTrace2(k2, k2)[1] - d * (3 * FMul(FSq(s), FSq(s)) - 2 * FQ4(s))) <= 8 * Tol * d)
GoLift(s, ev) == [s EXCEPT !.stage = 3] @@ [K |-> ev.out.K.m]
\* ---- the thermal state: occupation of mode k is 1 / (1 + exp(2 sig_k))
\* p (1 + e) = 1 for e = exp(2 sig) <= exp(3.2)
FermiOK(p, sg) == IF sg >= 0 THEN LET e == FExp(-2 * sg) IN Abs(FMul(p, FXS + e) - e) <= Tol
                  ELSE LET e == FExp(2 * sg) IN Abs(FMul(p, FXS + e) - FXS) <= Tol
\* tanh(sig)^2 = ((1 - e)/(1 + e))^2 with e = exp(-2 |sig|)
Tanh(sg) == LET e == FExp(-2 * Abs(sg)) IN FDiv(FXS - e, FXS + e)
RECURSIVE FPow(_, _)
FPow(x, m) == IF m = 0 THEN FXS ELSE FMul(x, FPow(x, m - 1))
EvThermal(s, ev) ==
    IF ~ev.out.rho.ok \/ ~ev.out.P.ok \/ ~ev.out.E.ok \/ ~ev.out.Q.ok \/ ~ev.out.cov.ok
    THEN {"finite_results_of_the_right_shape"}
    ELSE LET n == s.n  rho == ev.out.rho.m  P == ev.out.P.m  E == ev.out.E.m  Q == ev.out.Q.m  sg == Sig(s) IN
    Clause("state_hermitian", NearHerm(rho, 64))
    \cup Clause("state_normalised", NearTraceOne(rho, 64))
    \cup Clause("state_stationary", CMatNear(FMatMul(rho, s.K), FMatMul(s.K, rho), Tol))
    \cup Clause("modes_occupied_by_fermi_dirac", \A i, j \in 1..(2 * n) :
            IF i # j THEN Abs(P[i][j][1]) <= Tol /\ Abs(P[i][j][2]) <= Tol
            ELSE Abs(P[i][i][2]) <= Tol /\ FermiOK(P[i][i][1], IF i <= n THEN sg[i] ELSE -sg[i - n]))
    \cup Clause("adjoint_orders_agree", \A i, j \in 1..(2 * n) :
            CNear(CAdd(P[i][j], E[j][i]), IF i = j THEN <<FXS, 0>> ELSE CZero, Tol))
    \cup Clause("no_anomalous_correlations_of_modes", \A i, j \in 1..(2 * n) :
            CNear(Q[i][j], IF j = i + n \/ i = j + n THEN P[i][i] ELSE CZero, Tol))
    \cup Clause("covariance_of_modes", \A i, j \in 1..(2 * n) :
            CNear(ev.out.cov.m[i][j], CSub(Q[i][j], Q[j][i]), Tol))
    \cup Clause("energy_is_the_sum_over_modes",
            LET e == FTrace2(rho, s.K) IN
            Abs(e[2]) <= Tol /\ Abs(e[1] + SumTo([p \in 1..n |-> FMul(Abs(sg[p]), Tanh(sg[p]))], n)) <= 2 * Tol)
GoThermal(s, ev) == [s EXCEPT !.stage = 4] @@ [rho |-> ev.out.rho.m]
\* ---- anti-flatness of the thermal state: squared singular values tanh(sig_k)^2
EvFlat(s, ev) ==
    IF ~ev.out.ok THEN {"finite_results_of_the_right_shape"}
    ELSE LET n == s.n  t2 == TLCEval([p \in 1..n |-> FMul(Tanh(Sig(s)[p]), Tanh(Sig(s)[p]))])
             pm == ev.out.pm IN
    Clause("covariance_spectrum_is_tanh_squared", \A m \in 1..4 :
            Abs(SumTo([i \in 1..Len(pm) |-> FPow(pm[i], m)], Len(pm)) - SumTo([p \in 1..n |-> FPow(t2[p], m)], n)) <= 4 * Tol)
    \cup Clause("anti_flatness_of_the_modes", \A m \in 1..Len(ev.out.faf) :
            Abs(ev.out.faf[m] - (n * FXS - SumTo([p \in 1..n |-> FPow(t2[p], m)], n))) <= 4 * Tol)
\* ---- the Hamiltonian seen after a rotation W with orbital matrix C:  W^dagger K W is the lift of C^dagger H C
Conj(W, X) == FMatMul(FMatMul(CDagger(W), X), W)
EvTurn(s, ev) ==
    IF ~ev.out.W.ok \/ ~ev.out.C.ok \/ ~ev.out.K.ok \/ ~ev.out.rho.ok \/ ~ev.out.L.ok
    THEN {"finite_results_of_the_right_shape"}
    ELSE LET n == s.n  W == ev.out.W.m  C == ev.out.C.m  L == ev.out.L.m
             e2(M) == [p \in 1..n |-> FMul(M[p + n][p + n][1], M[p + n][p + n][1])]
             pw(M, m) == SumTo([p \in 1..n |-> FPow(e2(M)[p], m)], n) IN
    Clause("coefficients_rotated", CMatNear(ev.H2, Conj(C, s.H), Tol))
    \cup Clause("operator_rotates_with_its_coefficients", CMatNear(ev.out.K.m, Conj(W, s.K), 2 * Tol))
    \cup Clause("state_rotates_with_its_coefficients", CMatNear(ev.out.rho.m, Conj(W, s.rho), 2 * Tol))
    \cup Clause("energies_unchanged_by_rotation", \A m \in 1..3 : Abs(pw(L, m) - pw(s.L, m)) <= 8 * Tol)
\* ---- a decomposition given as [L, U] in another layout has the same energies
EvOther(s, ev) ==
    IF ~ev.out.ok THEN {"finite_results_of_the_right_shape"}
    ELSE LET n == s.n  sg == Sig(s)
             pw(v, m) == SumTo([p \in 1..n |-> FPow(FMul(v[p], v[p]), m)], n) IN
    Clause("layouts_agree_on_the_energies", Len(ev.out.e) = n /\ \A m \in 1..3 : Abs(pw(ev.out.e, m) - pw(sg, m)) <= 8 * Tol)
\* an event needs its session to have come as far as that; a new session starts with "modes"
Sess(s, ev) == IF s.stage > 0 /\ s.sess = ev.sess THEN s ELSE Nothing
Fails(c, ev) ==
    IF ev.exc # "" THEN {"must_return"}
    ELSE CASE ev.kind = "modes" -> EvModes(ev)
           [] ev.kind = "quasi" -> IF c.stage < 1 THEN {} ELSE EvQuasi(c, ev)
           [] ev.kind = "lift" -> IF c.stage < 2 THEN {} ELSE EvLift(c, ev)
           [] ev.kind = "thermal" -> IF c.stage < 3 THEN {} ELSE EvThermal(c, ev)
           [] ev.kind = "flat" -> IF c.stage < 3 THEN {} ELSE EvFlat(c, ev)
           [] ev.kind = "turn" -> IF c.stage < 4 THEN {} ELSE EvTurn(c, ev)
           [] ev.kind = "other" -> IF c.stage < 1 THEN {} ELSE EvOther(c, ev)
\* what the session establishes; a violation ends it
Succ(c, ev) == CASE ev.kind = "modes" -> GoModes(ev)
                 [] ev.kind = "quasi" /\ c.stage = 1 -> GoQuasi(c, ev)
                 [] ev.kind = "lift" /\ c.stage = 2 -> GoLift(c, ev)
                 [] ev.kind = "thermal" /\ c.stage = 3 -> GoThermal(c, ev)
                 [] OTHER -> c
MyStep(s, ev) == LET c == Sess(s, ev)  f == Fails(c, ev) IN
    [st |-> IF f # {} THEN Nothing ELSE Succ(c, ev), fails |-> f]
MyInit == Nothing
=============================================================================
