------------------------------- MODULE T_C33 --------------------------------
(* conformance of the random functions with their documented distributions.
   A session is a sequence of draws from one function.  The state accumulates,
   for every moment of the specification, the sum over the draws (PX), and for
   results from a finite set the number of occurrences; the end of the session
   compares the means with the moments of the invariant distribution. *)
EXTENDS TraceShell, Tableau, Cov, Haar
Blank == [m |-> 0, sum |-> << >>, prev |-> << >>, cnt |-> << >>]
MyInit == Blank
\* ---- rotations: C = Omega^dagger R Omega, R real.  Omega = [[1, 1], [i, -i]] / sqrt2 in blocks
Half(z) == <<(z[1] + 1) \div 2, (z[2] + 1) \div 2>>
RotCell(n, C, i, j) ==
    LET i0 == IF i > n THEN i - n ELSE i  j0 == IF j > n THEN j - n ELSE j
        aa == C[i0][j0]  bb == C[i0][j0 + n]  cc == C[i0 + n][j0]  dd == C[i0 + n][j0 + n]
    IN Half(CASE i <= n /\ j <= n -> CAdd(CAdd(aa, bb), CAdd(cc, dd))
              [] i <= n /\ j > n -> CI(CAdd(CSub(bb, aa), CSub(dd, cc)))
              [] i > n /\ j <= n -> CI(CAdd(CSub(aa, cc), CSub(bb, dd)))
              [] i > n /\ j > n -> CAdd(CSub(aa, bb), CSub(dd, cc)))
RotOf(n, C) == MkMat(2 * n, 2 * n, LAMBDA i, j : RotCell(n, C, i, j)[1])
Ups(N) == TLCEval([k \in 1..((N * (N - 1)) \div 2) |-> CHOOSE p \in {<<i, j>> : i \in 1..N, j \in 1..N} : p[1] < p[2]
    /\ k = ((p[1] - 1) * (2 * N - p[1])) \div 2 + p[2] - p[1]])
Cells(N) == TLCEval([k \in 1..(N * N) |-> <<((k - 1) \div N) + 1, ((k - 1) % N) + 1>>])
Ups2 == Ups(2)
Ups4 == Ups(4)
Ups6 == Ups(6)
Ups8 == Ups(8)
UpsOf(N) == CASE N = 2 -> Ups2 [] N = 4 -> Ups4 [] N = 6 -> Ups6 [] N = 8 -> Ups8
Cells2 == Cells(2)
Cells4 == Cells(4)
Cells6 == Cells(6)
CellsOf(N) == CASE N = 2 -> Cells2 [] N = 4 -> Cells4 [] N = 6 -> Cells6
Over(s, f(_)) == [k \in 1..Len(s) |-> f(s[k])]
PXDot(A, B) == SumTo([i \in 1..Len(A) |-> SumTo([j \in 1..Len(A) |-> PXMul(A[i][j], B[i][j])], Len(A))], Len(A))
RotVals(R, prev) == LET N == Len(R) u == UpsOf(N) c == CellsOf(N) IN
    Over(c, LAMBDA p : R[p[1]][p[2]]) \o Over(c, LAMBDA p : PXTwo(R[p[1]][p[2]])) \o Over(c, LAMBDA p : PXTwo(PXTwo(R[p[1]][p[2]])))
    \o Over(u, LAMBDA p : PXMul(R[p[1]][p[1]], R[p[2]][p[2]])) \o Over(u, LAMBDA p : PXMul(R[p[1]][p[2]], R[p[2]][p[1]])) \o Over(u, LAMBDA p : PXMul(R[1][p[1]], R[1][p[2]]))
    \o Over(u, LAMBDA p : PXMul(PXMul(R[p[1]][p[1]], R[p[2]][p[2]]), PXMul(R[p[1]][p[2]], R[p[2]][p[1]])))
    \o <<IF prev = << >> THEN 0 ELSE PXDot(R, prev) \div N>>
RotSpec(N) == LET u == UpsOf(N) c == CellsOf(N) v4 == SphM(N, 4) IN
    Over(c, LAMBDA p : <<"rotation_entries_centred", <<0, 1>>, SphM(N, 2)>>) \o Over(c, LAMBDA p : <<"rotation_second_moments", SphM(N, 2), v4>>)
    \o Over(c, LAMBDA p : <<"rotation_fourth_moments", v4, SphM(N, 8)>>)
    \o Over(u, LAMBDA p : <<"rotation_mixed_moments", IF N = 2 THEN <<1, 2>> ELSE <<0, 1>>, v4>>)
    \o Over(u, LAMBDA p : <<"rotation_mixed_moments", IF N = 2 THEN <<-1, 2>> ELSE <<0, 1>>, v4>>)
    \o Over(u, LAMBDA p : <<"rotation_mixed_moments", <<0, 1>>, v4>>)
    \o Over(u, LAMBDA p : <<"rotation_mixed_moments", RotM1111(N), SphM(N, 8)>>)
    \o << <<"successive_draws_independent", <<0, 1>>, IF N = 2 THEN <<1, 2>> ELSE <<1, N * N>>>> >>
\* ---- pure states
PXAbs2(z) == PXMul(z[1], z[1]) + PXMul(z[2], z[2])
PXCoh(x, y) == <<PXMul(x[1], y[1]) + PXMul(x[2], y[2]), PXMul(x[2], y[1]) - PXMul(x[1], y[2])>>       \* x y*
PureVals(v, prev) == LET d == Len(v) u == UpsOf(d) w == TLCEval([i \in 1..d |-> PXAbs2(v[i])]) ch == TLCEval(Over(u, LAMBDA p : PXCoh(v[p[1]], v[p[2]]))) IN
    w \o [i \in 1..d |-> PXTwo(w[i])] \o Over(ch, LAMBDA z : z[1]) \o Over(ch, LAMBDA z : z[2]) \o Over(ch, LAMBDA z : PXTwo(z[1])) \o Over(ch, LAMBDA z : PXTwo(z[2]))
    \o <<IF prev = << >> THEN PXS \div d ELSE PXAbs2(CSumTo([i \in 1..d |-> PXCoh(v[i], prev[i])], d))>>
Half2(e) == <<e[1], 2 * e[2]>>
PureSpec(d) == LET u == UpsOf(d) c2 == Half2(SimM11(d)) IN
    [i \in 1..d |-> <<"weights_uniform", SimM(d, 1), SimM(d, 2)>>] \o [i \in 1..d |-> <<"weights_second_moments", SimM(d, 2), SimM(d, 4)>>]
    \o Over(u, LAMBDA p : <<"coherences_centred", <<0, 1>>, c2>>) \o Over(u, LAMBDA p : <<"coherences_centred", <<0, 1>>, c2>>)
    \o Over(u, LAMBDA p : <<"coherences_second_moments", c2, SimM22(d)>>) \o Over(u, LAMBDA p : <<"coherences_second_moments", c2, SimM22(d)>>)
    \o << <<"successive_draws_independent", SimM(d, 1), SimM(d, 2)>> >>
\* ---- mixed states: the uniform spectrum, rotated
MixedVals(X) == LET d == Len(X) u == UpsOf(d) IN
    << SumTo([i \in 1..d |-> SumTo([j \in 1..d |-> PXAbs2(X[i][j])], d)], d) >>
    \o [i \in 1..d |-> X[i][i][1]] \o [i \in 1..d |-> PXTwo(X[i][i][1])]
    \o Over(u, LAMBDA p : X[p[1]][p[2]][1]) \o Over(u, LAMBDA p : X[p[1]][p[2]][2]) \o Over(u, LAMBDA p : PXTwo(X[p[1]][p[2]][1])) \o Over(u, LAMBDA p : PXTwo(X[p[1]][p[2]][2]))
MixedSpec(d) == LET u == UpsOf(d) P == <<2, d + 1>> m2 == MixM2(d, P) c2 == Half2(MixC2(d, P)) IN
    << <<"purity", P, <<4 * (d - 1), (d + 1) * (d + 1) * (d + 2) * (d + 3)>>>> >>
    \o [i \in 1..d |-> <<"weights_uniform", <<1, d>>, m2>>] \o [i \in 1..d |-> <<"weights_second_moments", m2, m2>>]
    \o Over(u, LAMBDA p : <<"coherences_centred", <<0, 1>>, c2>>) \o Over(u, LAMBDA p : <<"coherences_centred", <<0, 1>>, c2>>)
    \o Over(u, LAMBDA p : <<"coherences_second_moments", c2, <<c2[1], 4 * c2[2]>>>>) \o Over(u, LAMBDA p : <<"coherences_second_moments", c2, <<c2[1], 4 * c2[2]>>>>)
\* ---- points of the simplex
SimplexVals(s) == LET d == Len(s) u == UpsOf(d) IN s \o [i \in 1..d |-> PXTwo(s[i])] \o Over(u, LAMBDA p : PXMul(s[p[1]], s[p[2]]))
SimplexSpec(d) == LET u == UpsOf(d) IN
    [i \in 1..d |-> <<"spectrum_uniform", SimM(d, 1), SimM(d, 2)>>] \o [i \in 1..d |-> <<"spectrum_second_moments", SimM(d, 2), SimM(d, 4)>>]
    \o Over(u, LAMBDA p : <<"spectrum_second_moments", SimM11(d), SimM22(d)>>)
\* ---- Gaussian states: the covariance of a rotated occupation state of k particles (k < 0: unknown)
PXCov(n, v) == LET c == CovV(n, v) IN MkMat(2 * n, 2 * n, LAMBDA i, j : (c[i][j] + 2048) \div 4096)
GaussVals(n, k, G, prev) == LET u == UpsOf(2 * n) IN
    Over(u, LAMBDA p : G[p[1]][p[2]]) \o Over(u, LAMBDA p : PXTwo(G[p[1]][p[2]]))
    \o (IF n = 2 /\ k >= 0 THEN <<PXMul(G[1][2], G[3][4]), -PXMul(G[1][3], G[2][4]), PXMul(G[1][4], G[2][3])>> ELSE << >>)
    \o <<IF prev = << >> THEN 0 ELSE PXDot(G, prev) \div (2 * n)>>
\* the Pfaffian of the covariance of |00> is conserved up to the parity of k
Vacuum2 == TLCEval(PfOf(CovV(2, BasisVec(2, 0)), <<1, 2, 3, 4>>))
GaussSpec(n, k) == LET u == UpsOf(2 * n) e == GauM2(2 * n)  s == Vacuum2 * (IF k % 2 = 0 THEN 1 ELSE -1) IN
    Over(u, LAMBDA p : <<"covariance_centred", <<0, 1>>, e>>) \o Over(u, LAMBDA p : <<"covariance_second_moments", e, e>>)
    \o (IF n = 2 /\ k >= 0 THEN [i \in 1..3 |-> <<"covariance_pfaffian", <<s, 3>>, GauM11>>] ELSE << >>)
    \o << <<"successive_draws_independent", <<0, 1>>, <<2, n * (2 * n - 1)>>>> >>
\* ---- finite results
PXExpect(n, e, x) == CSumTo([c \in 1..(2 ^ n) |-> LET m == PImage(n, e, c - 1) IN
    IF x[c] = CZero \/ x[m[2] + 1] = CZero THEN CZero ELSE CMul(Unit4(m[1]), CMul(CConj(x[m[2] + 1]), x[c]))], 2 ^ n)
Group(n, x) == {<<e, Sgn(PXExpect(n, e, x)[1])>> : e \in {e \in 0..(4 ^ n - 1) : Abs(PXExpect(n, e, x)[1]) > 8388608}}
RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)
Tally(c, x) == IF x \in DOMAIN c THEN [c EXCEPT ![x] = @ + 1] ELSE c @@ (x :> 1)
RECURSIVE Squares(_, _)
Squares(c, T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN c[x] * c[x] + Squares(c, T \ {x})
\* ---- a session
Object(ev, x) == CASE ev.fn = "rot" -> RotOf(ev.n, x) [] ev.fn = "gauss" -> PXCov(ev.n, x) [] OTHER -> x
Vals(ev, x, prev) == CASE ev.fn = "rot" -> RotVals(x, prev) [] ev.fn = "pure" -> PureVals(x, prev) [] ev.fn = "mixed" -> MixedVals(x)
                       [] ev.fn = "simplex" -> SimplexVals(x) [] ev.fn = "gauss" -> GaussVals(ev.n, ev.k, x, prev)
Spec4(ev) == CASE ev.fn = "rot" -> RotSpec(2 * ev.n) [] ev.fn = "pure" -> PureSpec(2 ^ ev.n) [] ev.fn = "mixed" -> MixedSpec(2 ^ ev.n)
               [] ev.fn = "simplex" -> SimplexSpec(2 ^ ev.n) [] ev.fn = "gauss" -> GaussSpec(ev.n, ev.k)
Finite(ev) == ev.fn \in {"chp", "bits"}
Results(ev) == IF ev.fn = "bits" THEN Binom(ev.n, ev.k) ELSE StabCount(ev.n, ev.n)
Plus(a, b) == IF a = << >> THEN TLCEval(b) ELSE TLCEval([i \in 1..Len(a) |-> a[i] + b[i]])
Take(ev, s, x) == IF Finite(ev) THEN [s EXCEPT !.m = @ + 1, !.cnt = Tally(@, IF ev.fn = "bits" THEN x ELSE TLCEval(Group(ev.n, x)))]
    ELSE LET o == TLCEval(Object(ev, x)) IN [m |-> s.m + 1, sum |-> Plus(s.sum, Vals(ev, o, s.prev)), prev |-> o, cnt |-> s.cnt]
RECURSIVE TakeAll(_, _, _, _)
TakeAll(ev, s, xs, k) == IF k > Len(xs) THEN s ELSE TakeAll(ev, TLCEval(Take(ev, s, xs[k])), xs, k + 1)
Judge(ev, s) == IF s.m = 0 THEN {"no_draws"}
    ELSE IF Finite(ev) THEN Clause(IF ev.fn = "chp" THEN "stabilizer_states_equally_likely" ELSE "strings_equally_likely",
        Cardinality(DOMAIN s.cnt) <= Results(ev) /\ ChiOK(Squares(s.cnt, DOMAIN s.cnt), s.m, Results(ev)))
    ELSE LET sp == TLCEval(Spec4(ev)) IN {sp[i][1] : i \in {i \in 1..Len(sp) : ~MeanOK(ev.out.unit * s.sum[i], s.m, sp[i][2], sp[i][3])}}
\* the particle number of the unrotated state is drawn as well: its parity is that of <(-1)^N>
Parity(v) == SumTo([b \in 1..Len(v) |-> (IF Cardinality({q \in 0..9 : (b - 1) \div (2 ^ q) % 2 = 1}) % 2 = 0 THEN 1 ELSE -1) * (PXTwo(v[b][1]) + PXTwo(v[b][2]))], Len(v))
Numbers(ev) == IF ev.out.exc # "" THEN {"must_return"} ELSE IF ~ev.out.ok THEN {"result_of_the_documented_shape"}
    ELSE LET ps == {Sgn(Parity(ev.out.x[k])) : k \in 1..(ev.out.unit * Len(ev.out.x))} IN Clause("every_parity_occurs", ps = {1, -1})
MyStep(s, ev) ==
    CASE ev.kind = "begin" -> Stateless({}, Blank)
      [] ev.kind = "draws" -> IF ev.out.exc # "" THEN Stateless({"must_return"}, s)
                              ELSE IF ~ev.out.ok THEN Stateless({"result_of_the_documented_shape"}, s)
                              ELSE [st |-> TakeAll(ev, s, ev.out.x, 1), fails |-> {}]
      [] ev.kind = "numbers" -> Stateless(Numbers(ev), s)
      [] ev.kind = "end" -> [st |-> Blank, fails |-> Judge(ev, IF Finite(ev) THEN [s EXCEPT !.cnt = IF ev.out.unit = 1 THEN @ ELSE (<<0>> :> s.m)] ELSE s)]
=============================================================================
