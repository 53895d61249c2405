------------------------------- MODULE M_C35 --------------------------------
(***************************************************************************)
(* Wick's theorem.  Product states with occupations p / (p + q), written as     *)
(* the number 10 p + q, sent                                                  *)
(* through Gaussian operations, as exact density matrices; with Loose also    *)
(* through interactions, which leave the Gaussian states.                     *)
(***************************************************************************)
EXTENDS Cov, Json
CONSTANTS N, L, Weights, Loose
VARIABLES rho, cov, hist, prev
vars == <<rho, cov, hist, prev>>
M2 == 2 * N
Den == CTrace(rho)[1]
\* product state: weight of the basis vector b
Weight(w, b) == LET f[k \in 0..N] == IF k = 0 THEN 1 ELSE f[k - 1] * (IF Occ(N, k - 1, b) = 1 THEN w[k] \div 10 ELSE w[k] % 10) IN f[N]
Product(w) == MkMat(Dim(N), Dim(N), LAMBDA r, c : IF r = c THEN <<Weight(w, r - 1), 0>> ELSE CZero)
\* V rho V^dagger for V = a + b g_i g_j, columns first
Col(X, c) == [r \in 1..Len(X) |-> X[r][c]]
LeftPair(i, j, X) == LET cs == TLCEval([c \in 1..Len(X) |-> MajApply(N, i, j, Col(X, c))]) IN MkMat(Len(X), Len(X), LAMBDA r, c : cs[c][r])
LeftOp(a, b, i, j, X) == LET Y == LeftPair(i, j, X) IN MkMat(Len(X), Len(X), LAMBDA r, c : CAdd(CScale(a, X[r][c]), CScale(b, Y[r][c])))
Sandwich(a, b, i, j, X) == LET Y == TLCEval(LeftOp(a, b, i, j, X)) IN CDagger(LeftOp(a, b, i, j, CDagger(Y)))
Divides(k, X) == \A r, c \in 1..Len(X) : X[r][c][1] % k = 0 /\ X[r][c][2] % k = 0
Reduce(X, k) == IF Divides(k, X) THEN MkMat(Len(X), Len(X), LAMBDA r, c : <<X[r][c][1] \div k, X[r][c][2] \div k>>) ELSE X
Apply(g, X) == CASE g[1] = "rot" -> Reduce(Sandwich(3, 4, g[2], g[3], X), 25)
                 [] g[1] = "braid" -> Reduce(Sandwich(1, 1, g[2], g[3], X), 2)
                 [] g[1] = "blend" -> LET Y == Sandwich(0, 1, g[2], g[3], X) IN MkMat(Len(X), Len(X), LAMBDA r, c : CAdd(X[r][c], Y[r][c]))
Ops == {<<k, i, j>> : k \in {"rot", "braid"}, i \in 1..M2, j \in 1..M2} \cup (IF Loose THEN {<<"blend", i, j>> : i \in 1..M2, j \in 1..M2} ELSE {})
Init == \E w \in [1..N -> Weights] : rho = Product(w) /\ cov = Cov(N, Product(w)) /\ hist = <<w>> /\ prev = << >>
Rots == Cardinality({x \in 2..Len(hist) : hist[x][1] = "rot"})
Do(g) == /\ Len(hist) <= L
         /\ g[2] # g[3]
         /\ g[1] = "rot" => Rots = 0
         /\ rho' = TLCEval(Apply(g, rho)) /\ cov' = Cov(N, rho') /\ hist' = Append(hist, g)
         /\ prev' = <<rho, cov>>
Next == \E g \in Ops : Do(g)
\* tr rho g_I for the sequence I
RECURSIVE Walk(_, _, _)
Walk(I, k, s) == IF k = 0 THEN s ELSE LET t == MajImage(N, I[k], s[2]) IN Walk(I, k - 1, <<CMul(t[1], s[1]), t[2]>>)
Expect(I) == CSumTo([x \in 1..Dim(N) |-> LET t == Walk(I, Len(I), <<COne, x - 1>>) IN CMul(t[1], rho[x][t[2] + 1])], Dim(N))
IPow(k) == CASE k % 4 = 0 -> <<1, 0>> [] k % 4 = 1 -> <<0, 1>> [] k % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE x * Pow(x, k - 1)
State == /\ CMatEq(rho, CDagger(rho)) /\ CovReal(N, rho)
\* every correlation is the Pfaffian of the two-point ones (range: Den <= 225)
Wick == \A S \in SUBSET (1..M2) : LET I == Members(S, 1, M2)  k == Len(I) \div 2  e == Expect(I) IN
    IF Len(I) % 2 = 1 THEN e = CZero
    ELSE (k >= 1 /\ Pow(Den, k) < 20000000) => CScale(Pow(Den, k - 1), e) = CScale(PfOf(cov, I), IPow(k))
\* overlaps: 4^N tr(rho sigma)^2 = det(1 - M_rho M_sigma)
Over(c1, d1, c2, d2) == LET P == IMatMul(c1, c2) IN MkMat(M2, M2, LAMBDA i, j : <<(IF i = j THEN d1 * d2 ELSE 0) - P[i][j], 0>>)
OverlapIs(r1, c1, r2, c2) == LET d1 == CTrace(r1)[1]  d2 == CTrace(r2)[1]  t == CTrace(CMatMul(r1, r2))[1] IN
    d1 * d2 <= (IF N = 2 THEN 88 ELSE 15) =>
        CDet(Over(c1, d1, c2, d2)) = <<Pow(2, M2) * t * t * Pow(d1 * d2, M2 - 2), 0>>
Purity == OverlapIs(rho, cov, rho, cov)
Overlap == prev # << >> => OverlapIs(rho, cov, prev[1], prev[2])
Vacuum == LET w == [k \in 1..N |-> 1] IN OverlapIs(rho, cov, Product(w), Cov(N, Product(w)))
Emit == Len(hist) = L + 1 => PrintT("SCEN " \o ToJson([n |-> N, w |-> hist[1], ops |-> SubSeq(hist, 2, L + 1)]))
=============================================================================
