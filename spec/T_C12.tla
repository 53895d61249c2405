------------------------------- MODULE T_C12 --------------------------------
(* conformance of the random free-fermion state functions.  cert.V, cert.lam
   are an eigenbasis offered by the recorder and checked here. *)
EXTENDS TraceShell, Rot
Tol == 1024
\* cert is an orthonormal eigenbasis of rho with eigenvalues lam
Spectral(rho, V, lam) ==
    /\ FUnitary(V, Tol)
    /\ CMatNear(FMatMul(rho, V), MkMat(Len(V), Len(V), LAMBDA i, j : FXRC(lam[j], V[i][j])), Tol)
Conserves(n, X, tol) == \A r, c \in 1..Dim(n) :
    PopCount(r - 1) # PopCount(c - 1) => Abs(X[r][c][1]) <= tol /\ Abs(X[r][c][2]) <= tol
Quads(n) == {q \in [1..4 -> 1..(2 * n)] : q[1] < q[2] /\ q[2] < q[3] /\ q[3] < q[4]}
Wick(n, rho) == LET G == GMat(n, rho) IN \A q \in Quads(n) : WickOK(n, rho, G, q, Tol)
\* rho ~ exp(-b * (G - c)), c the bottom of the spectrum (all fixed point)
ThermalOf(rho, G, b, c) ==
    LET d == Len(G)
        X == MkMat(d, d, LAMBDA i, j : LET g == IF i = j THEN <<c - G[i][i][1], -G[i][i][2]>> ELSE CNeg(G[i][j])
                                       IN FXRC(b, g))
    IN IsThermal(rho, MExp(X), 2 * Tol)
EvMixed(ev) ==
    IF ~ev.out.rho.ok THEN {"state_is_finite_matrix_of_the_right_shape"}
    ELSE LET n == ev.n  rho == ev.out.rho.m IN
    Clause("hermitian", NearHerm(rho, 16))
    \cup Clause("trace_one", NearTraceOne(rho, 64))
    \cup Clause("positive", Spectral(rho, ev.cert.V, ev.cert.lam) /\ \A k \in 1..Len(ev.cert.lam) : ev.cert.lam[k] >= -64)
    \cup Clause("definite_parity", ParityEven(n, rho, 64))
    \cup (IF ev.gauss THEN Clause("gaussian", Wick(n, rho)) ELSE {})
    \cup (IF ev.fixedN THEN Clause("commutes_with_particle_number", Conserves(n, rho, 64)) ELSE {})
    \cup (IF ~ev.hasS THEN {}
          ELSE IF ~ev.out.s.ok THEN {"spectrum_is_returned_distribution"}
          ELSE LET s == ev.out.s.m[1] IN
               Clause("spectrum_is_returned_distribution",
                   /\ Len(s) = Dim(n)
                   /\ {ev.cert.perm[k] : k \in 1..Len(s)} = 1..Len(s)
                   /\ \A k \in 1..Len(s) : /\ Abs(s[ev.cert.perm[k]][1] - ev.cert.lam[k]) <= Tol
                                           /\ Abs(s[k][2]) <= 16 /\ s[k][1] >= -16
                   /\ Abs(CSumSeq(s)[1] - FXS) <= 64))
    \cup (IF ~ev.hasG THEN {}
          ELSE IF ~ev.out.G.ok THEN {"generator_is_finite_matrix"}
          ELSE LET G == ev.out.G.m IN
               Clause("generator_hermitian", NearHerm(G, 64))
               \cup Clause("generator_quadratic", Quadratic(n, G, Tol))
               \cup (IF ev.fixedN THEN Clause("generator_commutes_with_particle_number", Conserves(n, G, 64)) ELSE {})
               \cup (IF ev.cert.b = 0 THEN {}
                     ELSE Clause("state_is_thermal_in_returned_generator", ThermalOf(rho, G, ev.cert.b, ev.cert.c))))
\* pure states (column vectors)
Col(A) == [i \in 1..Len(A) |-> A[i][1]]
EvPure(ev) ==
    IF ~ev.out.psi.ok THEN {"state_is_finite_column_vector"}
    ELSE LET n == ev.n  psi == Col(ev.out.psi.m)
             rho == MkMat(Dim(n), Dim(n), LAMBDA i, j : FXC(psi[i], CConj(psi[j])))
             P == PMat(n, rho)
             odd(p) == \A b \in 1..Dim(n) : (PopCount(b - 1) % 2 # p) => Abs(psi[b][1]) <= 64 /\ Abs(psi[b][2]) <= 64
    IN Clause("unit_norm", NearTraceOne(rho, 256))
       \cup Clause("definite_parity", odd(0) \/ odd(1))
       \cup (IF ev.N >= 0 THEN Clause("parity_of_the_particle_number", odd(ev.N % 2)) ELSE {})
       \cup Clause("pure_gaussian_two_point_function_is_projector", CMatNear(FMatMul(P, P), P, Tol))
       \cup Clause("gaussian", Wick(n, rho))
       \cup (IF ev.fixedN THEN Clause("commutes_with_particle_number", Conserves(n, rho, 64)) ELSE {})
       \cup (IF ~ev.hasG THEN {}
             ELSE IF ~ev.out.G.ok THEN {"generator_is_finite_matrix"}
             ELSE LET G == ev.out.G.m IN
                  Clause("generator_hermitian", NearHerm(G, 64))
                  \cup (IF n > 3 THEN {} ELSE Clause("state_is_rotated_vacuum_of_returned_generator",
                         LET E == ExpMinusI(G) IN \A i \in 1..Dim(n) : CNear(E[i][1], psi[i], 2 * Tol))))
Fails(ev) == IF ev.kind = "refuse" THEN Clause("argument_validation", ev.out.type = ev.want)
             ELSE IF ev.exc # "" THEN {"must_return"}
             ELSE CASE ev.kind = "mixed" -> EvMixed(ev)
                    [] ev.kind = "pure" -> EvPure(ev)
MyStep(s, ev) == Stateless(Fails(ev), s)
MyInit == 0
=============================================================================
