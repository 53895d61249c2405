------------------------------- MODULE T_C08 --------------------------------
(* conformance of generate_gaussian_state *)
EXTENDS TraceShell, Gauss
Tol == 1024                       \* 2^-14
\* the many-body Hamiltonian (Gaussian integers / ev.den) the input denotes
IsCoefForm(n, H) == LET A == BR(n, H)  B == TR(n, H) IN CMatEq(H, HForm(n, A, B)) /\ IsSkew(B)
Coefs(ev) == Len(ev.H) = 2 * ev.n /\ (Len(ev.H) # Dim(ev.n) \/ IsCoefForm(ev.n, ev.H))
Ham(ev) == IF ~Coefs(ev) THEN ev.H
           ELSE IF ev.jw THEN Lift(ev.n, ev.H, FALSE) ELSE LiftDense(ev.H, ev.alphas, FALSE)
EvThermal(ev) ==
    IF ~ev.out.ok THEN {"state_is_finite_matrix_of_right_shape"}
    ELSE LET rho == ev.out.m IN
    Clause("state_is_hermitian", NearHerm(rho, 16))
    \cup Clause("state_has_trace_one", NearTraceOne(rho, 64))
    \cup (IF ev.n <= 3 THEN Clause("state_is_exponential_of_hamiltonian",
                            IsThermal(rho, Boltzmann(Ham(ev), ev.den, ev.shift), Tol)) ELSE {})
    \cup (IF ev.jw /\ Coefs(ev) THEN
             (IF RowNorm(ev.H) <= 2 * ev.den
              THEN Clause("two_point_function_is_fermi_dirac", FermiDirac(PMat(ev.n, rho), ev.H, ev.den, Tol)) ELSE {})
             \cup (IF ev.quads = << >> THEN {} ELSE LET G == GMat(ev.n, rho) IN
                   Clause("wick_theorem", \A q \in 1..Len(ev.quads) : WickOK(ev.n, rho, G, ev.quads[q], Tol)))
          ELSE {})
\* a Hamiltonian diagonal in the occupations: p_j / p_i = exp(E_i - E_j)
EvPopulations(ev) ==
    IF ~ev.out.ok THEN {"populations_are_positive"}
    ELSE LET K == Ham(ev)  p == ev.out.l IN
    Clause("state_is_diagonal", ev.out.off)
    \cup Clause("boltzmann_populations", Len(p) = Len(K) /\ \A j \in 1..Len(K) :
                FNear(p[j] - p[1], FRat(K[1][1][1] - K[j][j][1], ev.den), 64))
Fails(ev) == IF ev.exc # "" THEN {"must_return"}
             ELSE CASE ev.kind = "thermal" -> EvThermal(ev)
                    [] ev.kind = "populations" -> EvPopulations(ev)
                    [] ev.kind = "refuse" -> Clause("other_sizes_return_zero", ev.out.zero)
MyStep(s, ev) == Stateless(Fails(ev), s)
MyInit == 0
=============================================================================
