------------------------------- MODULE T_C25 --------------------------------
(* conformance of cast_to_density_matrix, cast_to_pdf and analyze_pdf *)
EXTENDS TraceShell, Prob
MyInit == [rho |-> << >>, den |-> 0]
Refused(t) == t \in {"ValueError", "AssertionError"}
Scaled(M, k) == CMatScale(k, M)
Row(M, k) == <<[i \in 1..Len(M) |-> CScale(k, M[i][i])]>>
\* an outcome o = [exc, ok, m (entries times scale)] against a cast <<kind, matrix, denominator>>
Judge(o, c, fn, scale) ==
    IF c[1] = "refused" THEN Clause("not_a_state_refused", Refused(o.exc))
    ELSE IF o.exc # "" THEN {"valid_input_accepted"}
    ELSE IF ~o.ok THEN {"result_shape_or_lattice"}
    ELSE IF fn = "cast_to_pdf"
    THEN Clause("distribution_is_the_diagonal", CMatEq(o.m, Row(c[2], scale \div c[3]))) \cup Clause("distribution_is_real", o.real)
    ELSE Clause(CASE c[1] = "wave" -> "wavefunction_projector" [] c[1] = "dist" -> "distribution_on_the_diagonal" [] OTHER -> "density_matrix_unchanged",
                CMatEq(o.m, Scaled(c[2], scale \div c[3])))
\* mixing one more vector: the projector of the vector, and the mixture as matrix and distribution
DoMix(s, ev) ==
    LET n2 == Norm2(ev.v)
        rho == CMatAdd(s.rho, Outer(ev.v))  den == s.den + n2 IN
    [st |-> [rho |-> rho, den |-> den],
     fails |-> Judge(ev.out.vec, <<"wave", Outer(ev.v), n2>>, "", n2)
        \cup Judge(ev.out.vecpdf, <<"wave", Outer(ev.v), n2>>, "cast_to_pdf", n2)
        \cup Judge(ev.out.mat, <<"state", rho, den>>, "", den)
        \cup Judge(ev.out.matpdf, <<"state", rho, den>>, "cast_to_pdf", den)]
\* the plot shows the diagonal and the spectrum, descending; the spectrum by its power sums
RECURSIVE MatPow(_, _)
MatPow(M, k) == IF k = 1 THEN M ELSE FMatMul(M, MatPow(M, k - 1))
RECURSIVE FIPow(_, _)
FIPow(x, k) == IF k = 1 THEN x ELSE FMul(x, FIPow(x, k - 1))
PlotTol == 4000
EvPlot(ev) ==
    LET c == IF ev.form = "mat" THEN CastMat(ev.M, ev.den) ELSE Cast(ev.v, ev.den) IN
    IF c[1] = "refused" THEN Clause("not_a_state_refused", Refused(ev.out.exc))
    ELSE IF ev.out.exc # "" THEN {"valid_input_accepted"}
    ELSE IF ~ev.out.ok THEN {"plots_two_series"}
    ELSE LET R == c[2]  n == Len(R)
             X == MkMat(n, n, LAMBDA i, j : <<FRat(R[i][j][1], c[3]), FRat(R[i][j][2], c[3])>>)
             e == ev.out.eig
         IN IF Len(ev.out.diag) # n \/ Len(e) # n THEN {"plots_every_entry"} ELSE
            Clause("plots_the_diagonal", \A i \in 1..n : FNear(ev.out.diag[i], X[i][i][1], PlotTol))
            \cup Clause("plots_eigenvalues_descending", \A i \in 1..(n - 1) : e[i] >= e[i + 1])
            \cup Clause("plots_the_spectrum", \A k \in 1..n :
                    FNear(SumTo([i \in 1..n |-> FIPow(e[i], k)], n), CTrace(MatPow(X, k))[1], PlotTol))
            \cup Clause("title_names_the_state", ev.out.titled)
MyStep(s, ev) ==
    CASE ev.kind = "begin" -> Stateless({}, [rho |-> CZeroMat(ev.d, ev.d), den |-> 0])
      [] ev.kind = "mix" -> DoMix(s, ev)
      [] ev.kind = "vec" -> Stateless(Judge(ev.out, Cast(ev.v, ev.den), ev.fn, ev.den * ev.den), s)
      [] ev.kind = "sharp" ->         \* a distribution close to a basis vector: counts over den
           Stateless(Judge(ev.out, <<"dist", Diagonal(ev.v), ev.den>>, ev.fn, ev.den), s)
      [] ev.kind = "mat" -> Stateless(Judge(ev.out, CastMat(ev.M, ev.den), ev.fn, ev.den), s)
      [] ev.kind = "plot" -> Stateless(EvPlot(ev), s)
      [] ev.kind = "refuse" -> Stateless(Clause("wrong_argument_refused", ev.out.type = ev.want), s)
=============================================================================
