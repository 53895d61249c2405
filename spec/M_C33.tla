------------------------------- MODULE M_C33 --------------------------------
(***************************************************************************)
(* Orbits of finite groups.  A set of directions, grown by the generators of *)
(* a group until it is closed, averages every polynomial of low degree to    *)
(* its value under the invariant distribution; the closed sets are           *)
(*   circle   the 12-gon (degree 11)           N = 2, over Z[sqrt 3]         *)
(*   icosian  the 600-cell (degree 11)         N = 4, over Z[golden ratio]   *)
(*   hurwitz  the 24-cell (degree 5)           N = 4; its pairs rotate R^4   *)
(*   e8       the roots of E8 (degree 7)       N = 8                         *)
(*   cross    coordinate axes, degree 3 only: refuted by Fourth              *)
(* Points have coordinates a + b w scaled by 2, with w^2 = WP w + WQ.        *)
(***************************************************************************)
EXTENDS Haar
CONSTANTS WHICH, WP, WQ
VARIABLE S
N == CASE WHICH = "circle" -> 2 [] WHICH = "e8" -> 8 [] OTHER -> 4
RMul(x, y) == <<x[1] * y[1] + WQ * x[2] * y[2], x[1] * y[2] + x[2] * y[1] + WP * x[2] * y[2]>>
RSum(f, n) == CSumTo(f, n)
RNeg(x) == CNeg(x)
RHalf(x) == IF x[1] % 2 = 0 /\ x[2] % 2 = 0 THEN <<x[1] \div 2, x[2] \div 2>> ELSE Assert(FALSE, <<"not in the ring", x>>)
Z(a) == <<a, 0>>
\* quaternion product
QMul(a, b) == LET p(i, j) == RMul(a[i], b[j]) IN
    << CAdd(CSub(p(1, 1), p(2, 2)), CNeg(CAdd(p(3, 3), p(4, 4)))),
       CAdd(CAdd(p(1, 2), p(2, 1)), CSub(p(3, 4), p(4, 3))),
       CAdd(CAdd(p(1, 3), p(3, 1)), CSub(p(4, 2), p(2, 4))),
       CAdd(CAdd(p(1, 4), p(4, 1)), CSub(p(2, 3), p(3, 2))) >>
QConj(a) == <<a[1], CNeg(a[2]), CNeg(a[3]), CNeg(a[4])>>
Gens == CASE WHICH = "circle" -> {<< <<0, 1>>, Z(1) >>}
          [] WHICH = "icosian" -> {<<Z(1), Z(1), Z(1), Z(1)>>, << <<0, 1>>, Z(1), <<-1, 1>>, Z(0)>>}
          [] WHICH = "hurwitz" -> {<<Z(1), Z(1), Z(1), Z(1)>>, <<Z(0), Z(2), Z(0), Z(0)>>}
          [] WHICH = "cross" -> {<<Z(0), Z(2), Z(0), Z(0)>>, <<Z(0), Z(0), Z(2), Z(0)>>}
          [] WHICH = "e8" -> {[i \in 1..8 |-> Z(IF i \in {1, 8} THEN 1 ELSE -1)], [i \in 1..8 |-> Z(IF i <= 2 THEN 2 ELSE 0)]}
                              \cup {[i \in 1..8 |-> Z(IF i = k + 1 THEN 2 ELSE IF i = k THEN -2 ELSE 0)] : k \in 1..6}
Dot(a, b) == RSum([i \in 1..Len(a) |-> RMul(a[i], b[i])], Len(a))
Act(g, x) == CASE WHICH = "circle" -> <<RHalf(CSub(RMul(g[1], x[1]), RMul(g[2], x[2]))), RHalf(CAdd(RMul(g[1], x[2]), RMul(g[2], x[1])))>>
               [] WHICH = "e8" -> LET k == Dot(g, x)[1] \div 4 IN TLCEval([i \in 1..8 |-> CSub(x[i], CScale(k, g[i]))])
               [] OTHER -> LET p == QMul(g, x) IN <<RHalf(p[1]), RHalf(p[2]), RHalf(p[3]), RHalf(p[4])>>
Start == IF WHICH = "e8" THEN [i \in 1..8 |-> Z(IF i <= 2 THEN 2 ELSE 0)] ELSE [i \in 1..N |-> Z(IF i = 1 THEN 2 ELSE 0)]
Image(T) == UNION {{Act(g, x) : x \in T} : g \in Gens}
Init == S = {Start}
Next == ~(Image(S) \subseteq S) /\ S' = S \cup Image(S)
Closed == Image(S) \subseteq S
\* ---- averages.  A point has the squared norm NSQ, a polynomial of degree k is compared at the scale NSQ^(k/2)
NSQ == IF WHICH = "e8" THEN 8 ELSE 4
RECURSIVE SetSum(_, _)
SetSum(f(_), T) == IF T = {} THEN CZero ELSE LET x == CHOOSE x \in T : TRUE IN CAdd(f(x), SetSum(f, T \ {x}))
RPow2(x) == RMul(x, x)
\* the average of f, of degree k, is the fraction e
Average(f(_), k, e) == LET s == TLCEval(SetSum(f, S)) IN s[2] = 0 /\ s[1] * e[2] = e[1] * Cardinality(S) * (NSQ ^ (k \div 2))
Sphere == \A x \in S : Dot(x, x) = <<NSQ, 0>>
Size == Closed => Cardinality(S) = (CASE WHICH = "circle" -> 12 [] WHICH = "icosian" -> 120 [] WHICH = "hurwitz" -> 24 [] WHICH = "e8" -> 240 [] WHICH = "cross" -> 8)
Odd == Closed => \A i \in 1..N : Average(LAMBDA x : x[i], 0, <<0, 1>>) /\ Average(LAMBDA x : RMul(x[i], RPow2(x[1])), 0, <<0, 1>>)
Second == Closed => \A i, j \in 1..N : Average(LAMBDA x : RMul(x[i], x[j]), 2, IF i = j THEN SphM(N, 2) ELSE <<0, 1>>)
Fourth == Closed => \A i \in 1..N : /\ Average(LAMBDA x : RPow2(RPow2(x[i])), 4, SphM(N, 4))
                                    /\ \A j \in (i + 1)..N : Average(LAMBDA x : RMul(RPow2(x[i]), RPow2(x[j])), 4, SphM22(N))
Sixth == Closed => \A i \in 1..N : Average(LAMBDA x : RMul(RPow2(RPow2(x[i])), RPow2(x[i])), 6, SphM(N, 6))
Eighth == Closed => \A i \in 1..N : Average(LAMBDA x : RPow2(RPow2(RPow2(x[i]))), 8, SphM(N, 8))
\* ---- the rotations x -> p x q*, over all pairs of unit quaternions; entries scaled by 4
Cell(p, q, i, j) == LET e == [k \in 1..4 |-> Z(IF k = j THEN 1 ELSE 0)] IN QMul(QMul(p, e), QConj(q))[i][1]
Rot(p, q) == TLCEval([i \in 1..4 |-> TLCEval([j \in 1..4 |-> Cell(p, q, i, j)])])
RECURSIVE MapSum(_, _)
MapSum(f, T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN f[x] + MapSum(f, T \ {x})
Over(f(_), Rs) == MapSum(TLCEval([pq \in S \X S |-> f(Rs[pq])]), S \X S)
PairAvg(f(_), Rs, k, e) == Over(f, Rs) * e[2] = e[1] * Cardinality(S \X S) * (4 ^ k)
\* covariance R G R^T of a rotated occupation state with sign s on the second mode; scaled by 16
G0(s) == << <<0, 1, 0, 0>>, <<-1, 0, 0, 0>>, <<0, 0, 0, s>>, <<0, 0, -s, 0>> >>
Gam(R, s) == IMatMul(IMatMul(R, G0(s)), ITransp(R))
Pairs == (WHICH = "hurwitz" /\ Closed) =>
    LET Rs == TLCEval([pq \in S \X S |-> Rot(pq[1], pq[2])]) IN
    /\ \A pq \in S \X S : IMatEq(IMatMul(Rs[pq], ITransp(Rs[pq])), [i \in 1..4 |-> [j \in 1..4 |-> IF i = j THEN 16 ELSE 0]])
    /\ \A i, j \in 1..4 : PairAvg(LAMBDA R : R[i][j], Rs, 1, <<0, 1>>) /\ PairAvg(LAMBDA R : R[i][j] ^ 2, Rs, 2, SphM(4, 2)) /\ PairAvg(LAMBDA R : R[i][j] ^ 4, Rs, 4, SphM(4, 4))
    /\ \A i \in 1..4 : \A j \in (i + 1)..4 :
        /\ PairAvg(LAMBDA R : R[i][i] * R[j][j], Rs, 2, <<0, 1>>) /\ PairAvg(LAMBDA R : R[i][j] * R[j][i], Rs, 2, <<0, 1>>) /\ PairAvg(LAMBDA R : R[1][i] * R[1][j], Rs, 2, <<0, 1>>)
        /\ PairAvg(LAMBDA R : R[i][i] * R[j][j] * R[i][j] * R[j][i], Rs, 4, RotM1111(4))
        /\ PairAvg(LAMBDA R : R[i][i] ^ 2 * R[j][j] ^ 2, Rs, 4, RotM22(4))
    /\ \A s \in {1, -1} : LET Gs == TLCEval([pq \in S \X S |-> TLCEval(Gam(Rs[pq], s))]) IN
        \A i \in 1..4 : \A j \in (i + 1)..4 : PairAvg(LAMBDA g : g[i][j], Gs, 2, <<0, 1>>) /\ PairAvg(LAMBDA g : g[i][j] ^ 2, Gs, 4, GauM2(4))
            /\ ((i = 1) => LET k == CHOOSE k \in 2..4 : k # j  l == CHOOSE l \in 2..4 : l # j /\ l # k
                               sg == IF j = 3 THEN -1 ELSE 1  a == Min2(k, l)  b == Max2(k, l) IN
                           PairAvg(LAMBDA g : g[1][j] * g[a][b], Gs, 4, <<s * sg, 3>>))
\* ---- unit quaternions as SU(2): rotated spectra <<s, t>>, purity (s^2 + t^2)/(s + t)^2
Mixed == (WHICH = "hurwitz" /\ Closed) => \A s, t \in 0..4 : s + t > 0 =>
    LET P == <<s * s + t * t, (s + t) * (s + t)>>
        n1(x) == x[1][1] ^ 2 + x[2][1] ^ 2  n2(x) == x[3][1] ^ 2 + x[4][1] ^ 2
        \* x[1] + i x[2], x[3] + i x[4]: first column of U; the density matrix times 4 (s + t)
        r11(x) == s * n1(x) + t * n2(x)
        r12(x) == CScale(s - t, CMul(<<x[1][1], x[2][1]>>, <<x[3][1], x[4][1]>>))
        sum(f(_)) == SetSum(LAMBDA x : Z(f(x)), S)[1]
        tot == Cardinality(S) * 16 * (s + t) * (s + t)
    IN /\ sum(LAMBDA x : r11(x) ^ 2) * MixM2(2, P)[2] = MixM2(2, P)[1] * tot
       /\ sum(LAMBDA x : CAbs2(r12(x))) * MixC2(2, P)[2] = MixC2(2, P)[1] * tot
       /\ sum(LAMBDA x : r12(x)[1] ^ 2) = sum(LAMBDA x : r12(x)[2] ^ 2)
=============================================================================
