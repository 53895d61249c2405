------------------------------- MODULE M_C29 --------------------------------
(***************************************************************************)
(* Three ensembles of qubit states, filled state by state from the six axis  *)
(* states.  Tracked are the Bloch vectors; the matrices are built apart from *)
(* them.  The trace distance of two qubit states, X their difference, is     *)
(* sqrt(-det X); as Bloch vectors half their euclidean distance.             *)
(***************************************************************************)
EXTENDS Prob, Json
CONSTANTS T, T3, Diag
VARIABLES m, k
vars == <<m, k>>
\* unnormalised state vectors (squared norm 2, or 4 for the basis states)
Axis == << << <<2, 0>>, <<0, 0>> >>, << <<0, 0>>, <<2, 0>> >>,
           << <<1, 0>>, <<1, 0>> >>, << <<1, 0>>, <<-1, 0>> >>,
           << <<1, 0>>, <<0, 1>> >>, << <<1, 0>>, <<0, -1>> >> >>
Bloch == << <<0, 0, 1>>, <<0, 0, -1>>, <<1, 0, 0>>, <<-1, 0, 0>>, <<0, 1, 0>>, <<0, -1, 0>> >>
\* m[p] = counts of the axis states in ensemble p
Init == m = [p \in 1..3 |-> [a \in 1..6 |-> 0]] /\ k = 1
Tot(p) == SumSeq(m[p])
Add(p, a) == k = p /\ Tot(p) < (IF p = 3 THEN T3 ELSE T) /\ m' = [m EXCEPT ![p][a] = @ + 1] /\ UNCHANGED k
Turn == k < 3 /\ Tot(k) > 0 /\ k' = k + 1 /\ UNCHANGED m
Next == (\E p \in 1..3, a \in (IF Diag THEN 1..2 ELSE 1..6) : Add(p, a)) \/ Turn
\* the matrix of ensemble p over 4 Tot(p)
Weight(a) == IF a <= 2 THEN 1 ELSE 2
Proj == TLCEval([a \in 1..6 |-> TLCEval(CMatScale(Weight(a), Outer(Axis[a])))])
RECURSIVE MatTo(_, _)
MatTo(c, a) == IF a = 0 THEN CZeroMat(2, 2) ELSE IF c[a] = 0 THEN MatTo(c, a - 1) ELSE CMatAdd(MatTo(c, a - 1), CMatScale(c[a], Proj[a]))
Mat(p) == MatTo(m[p], 6)
Vec(p) == [x \in 1..3 |-> SumTo([a \in 1..6 |-> m[p][a] * Bloch[a][x]], 6)]
\* 4 Tot(p) Tot(q) times the difference
Diff(p, q) == CMatSub(CMatScale(Tot(q), Mat(p)), CMatScale(Tot(p), Mat(q)))
\* the squared distance times (4 Tot(p) Tot(q))^2
Det2(X) == CSub(CMul(X[1][1], X[2][2]), CMul(X[1][2], X[2][1]))
D2(p, q) == LET X == Diff(p, q) IN -(Det2(X)[1])
B2(p, q) == LET v == Vec(p) w == Vec(q) IN
    SumTo([x \in 1..3 |-> (Tot(q) * v[x] - Tot(p) * w[x]) * (Tot(q) * v[x] - Tot(p) * w[x])], 3)
Ready == k = 3 /\ Tot(3) > 0
Scale2(p, q) == 16 * Tot(p) * Tot(p) * Tot(q) * Tot(q)
States == Ready => \A p \in 1..3 : IsState(Mat(p), 4 * Tot(p))
BlochOK == Ready => \A p, q \in 1..3 : LET X == Diff(p, q) z == Det2(X) IN z[2] = 0 /\ -z[1] = 4 * B2(p, q)
Metric == Ready => \A p, q \in 1..3 :
    LET X == Diff(p, q) z == -(Det2(X)[1]) IN
    /\ z = D2(q, p) /\ z >= 0 /\ z <= Scale2(p, q)
    /\ (z = 0) = CMatEq(X, CZeroMat(2, 2))
\* distance in fixed point
Dist(p, q) == FSqrt(FRat(D2(p, q), Scale2(p, q)))
Triangle == Ready => Dist(1, 3) <= Dist(1, 2) + Dist(2, 3) + 8192
\* measuring in the computational basis does not increase the distance, and the
\* two agree for diagonal states
Measured == Ready => LET a == Pdf(Mat(1)) b == Pdf(Mat(2)) t == TV2(a, 4 * Tot(1), b, 4 * Tot(2)) IN
    \* TV2 = 2 (4 Tot1)(4 Tot2) tv;  tv^2 (4 t1 t2)^2 = (t/8)^2
    /\ t % 8 = 0 /\ (t \div 8) * (t \div 8) <= D2(1, 2)
    /\ ((\A p \in 1..2, a0 \in 3..6 : m[p][a0] = 0) => (t \div 8) * (t \div 8) = D2(1, 2))
\* two pure states:  D^2 = 1 - |<u|v>|^2 / (|u|^2 |v|^2)
Pure == Ready /\ Tot(1) = 1 /\ Tot(2) = 1 =>
    LET a == CHOOSE a \in 1..6 : m[1][a] = 1
        b == CHOOSE b \in 1..6 : m[2][b] = 1
        ov == CAbs2(CSumTo([i \in 1..2 |-> CMul(CConj(Axis[a][i]), Axis[b][i])], 2))
        n2 == Norm2(Axis[a]) * Norm2(Axis[b]) IN
    D2(1, 2) * n2 = Scale2(1, 2) * (n2 - ov)
Emit == Ready => PrintT("SCEN " \o ToJson([m |-> m]))
=============================================================================
