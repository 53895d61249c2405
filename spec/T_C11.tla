------------------------------- MODULE T_C11 --------------------------------
(* conformance of random_FF_rotation in its three return modes, same seed *)
EXTENDS TraceShell, Rot
Tol == 1024
EvRot(ev) ==
    IF ~ev.out.W.ok \/ ~ev.out.C.ok \/ ~ev.out.G.ok THEN {"results_are_finite_matrices_of_the_right_shape"}
    ELSE LET n == ev.n  W == ev.out.W.m  C == ev.out.C.m  G == ev.out.G.m IN
    Clause("orbital_rotation_unitary", FUnitary(C, Tol))
    \cup Clause("orbital_rotation_symplectic", SympS(n, C, Tol) /\ BlockForm(n, C, Tol))
    \cup Clause("rotation_unitary", FUnitary(W, Tol))
    \cup Clause("rotation_preserves_parity", ParityEven(n, W, Tol))
    \cup Clause("modes_rotate_linearly_by_C", RotatesModes(n, W, C, Tol))
    \cup Clause("generator_hermitian", NearHerm(G, 64))
    \cup Clause("generator_quadratic", Quadratic(n, G, Tol))
    \cup (IF n <= 3 THEN Clause("rotation_is_exponential_of_generator", CMatNear(ExpMinusI(G), W, 2 * Tol)) ELSE {})
Fails(ev) == IF ev.exc # "" THEN {"must_return"} ELSE EvRot(ev)
MyStep(s, ev) == Stateless(Fails(ev), s)
MyInit == 0
=============================================================================
