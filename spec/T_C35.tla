------------------------------- MODULE T_C35 --------------------------------
(***************************************************************************)
(* Wick's theorem across the library.  The state of the specification keeps  *)
(* the Gaussian states a session has produced; every correlation of one is a  *)
(* Pfaffian of its two-point functions, every overlap of two a determinant of *)
(* their covariances.  All numbers fixed point.                              *)
(***************************************************************************)
EXTENDS TraceShell, Rot
Tol == 1024
Nothing == [sess |-> -1, rhos |-> << >>]
\* tr rho g_I, g = sqrt2 gamma
RECURSIVE WalkMaj(_, _, _, _)
WalkMaj(n, I, k, s) == IF k = 0 THEN s ELSE LET t == MajImage(n, I[k], s[2]) IN WalkMaj(n, I, k - 1, <<CMul(t[1], s[1]), t[2]>>)
ExpectMaj(n, rho, I) == CSumTo([x \in 1..Dim(n) |-> LET t == WalkMaj(n, I, Len(I), <<COne, x - 1>>) IN CMul(t[1], rho[x][t[2] + 1])], Dim(n))
\* ---- a Gaussian state and its two-point functions
EvState(ev) ==
    IF ~ev.out.rho.ok \/ ~ev.out.G.ok \/ ~ev.out.D.ok \/ ~ev.out.A.ok THEN {"finite_results_of_the_right_shape"}
    ELSE LET n == ev.n  rho == ev.out.rho.m  G == ev.out.G.m IN
    Clause("state_hermitian", NearHerm(rho, 64))
    \cup Clause("state_normalised", NearTraceOne(rho, 64))
    \cup Clause("majorana_correlations", \A i, j \in 1..(2 * n) :
            LET e == ExpectMaj(n, rho, <<i, j>>) IN CNear(<<2 * G[i][j][1], 2 * G[i][j][2]>>, e, Tol))
    \cup Clause("covariance_is_the_commutator", \A i, j \in 1..(2 * n) : CNear(ev.out.D.m[i][j], CSub(G[i][j], G[j][i]), Tol))
    \cup Clause("ladder_correlations", CMatNear(ev.out.A.m, GMat(n, rho), Tol))
\* ---- Pfaffians of the two-point functions of the latest state
EvWick(s, ev) ==
    IF ~(\A x \in 1..Len(ev.out.p) : ev.out.p[x].ok) THEN {"finite_results_of_the_right_shape"}
    ELSE LET n == s.n  rho == s.rhos[Len(s.rhos)] IN
    Clause("majorana_correlations_are_pfaffians", \A x \in 1..Len(ev.out.p) : LET e == ev.out.p[x]  f == 2 ^ (Len(e.I) \div 2) IN
        e.t = "G" => LET t == ExpectMaj(n, rho, e.I) IN CNear(<<f * e.z[1], f * e.z[2]>>, t, Tol))
    \cup Clause("majorana_correlations_are_pfaffians_of_the_covariance", \A x \in 1..Len(ev.out.p) : LET e == ev.out.p[x] IN
        e.t = "D" => CNear(e.z, ExpectMaj(n, rho, e.I), Tol))
    \cup Clause("ladder_correlations_are_pfaffians", \A x \in 1..Len(ev.out.p) : LET e == ev.out.p[x] IN
        e.t = "A" => CNear(e.z, TrWord(n, rho, e.I), Tol))
    \cup Clause("odd_correlations_vanish", \A x \in 1..Len(ev.odd) : CNear(ExpectMaj(n, rho, ev.odd[x]), CZero, Tol))
\* ---- dt or dt_eigen of (1 + D_i D_j)/2 for the states i and j of the session
FTr2(A, B) == CSumTo([i \in 1..Len(A) |-> CSumTo([j \in 1..Len(A) |-> FXC(A[i][j], B[j][i])], Len(A))], Len(A))
EvOverlap(s, ev) ==
    IF ~ev.out.ok THEN {"finite_results_of_the_right_shape"}
    ELSE LET t == FTr2(s.rhos[ev.i], s.rhos[ev.j]) IN
    Clause("overlap_is_a_determinant", /\ Abs(t[2]) <= Tol /\ t[1] >= -Tol
        /\ CNear(ev.out.z, <<FMul(t[1], t[1]), 0>>, 2 * Tol))
Sess(s, ev) == IF s.sess = ev.sess THEN s ELSE [sess |-> ev.sess, rhos |-> << >>]
Fails(c, ev) ==
    IF ev.exc # "" THEN {"must_return"}
    ELSE CASE ev.kind = "state" -> EvState(ev)
           [] ev.kind = "wick" -> IF Len(c.rhos) = 0 THEN {} ELSE EvWick(c, ev)
           [] ev.kind = "overlap" -> IF Len(c.rhos) < ev.i \/ Len(c.rhos) < ev.j THEN {} ELSE EvOverlap(c, ev)
MyStep(s, ev) == LET c == Sess(s, ev)  f == Fails(c, ev) IN
    [st |-> IF f # {} THEN [sess |-> ev.sess, rhos |-> << >>]
            ELSE IF ev.kind = "state" THEN [sess |-> ev.sess, n |-> ev.n, rhos |-> Append(c.rhos, ev.out.rho.m)] ELSE c,
     fails |-> f]
MyInit == Nothing
=============================================================================
