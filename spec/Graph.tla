------------------------------- MODULE Graph --------------------------------
(***************************************************************************)
(* Simple graphs on vertices 1..n and their embeddings.  An edge is a pair  *)
(* <<u, v>>, u < v; a dart is an edge with a direction.  A rotation system  *)
(* rot maps the dart <<v, u>> to the neighbour of v next to u, clockwise;   *)
(* after u -> v a face goes on to v -> rot[<<v, u>>].                       *)
(***************************************************************************)
EXTENDS Comb
Und(u, v) == IF u < v THEN <<u, v>> ELSE <<v, u>>
DartsOf(E) == {<<e[1], e[2]>> : e \in E} \cup {<<e[2], e[1]>> : e \in E}
Rev(d) == <<d[2], d[1]>>
NextDart(rot, d) == <<d[2], rot[<<d[2], d[1]>>]>>
RECURSIVE OrbitFrom(_, _, _)
OrbitFrom(rot, d0, d) == LET e == NextDart(rot, d) IN
    IF e = d0 THEN <<d>> ELSE <<d>> \o OrbitFrom(rot, d0, e)
FaceOf(rot, d) == OrbitFrom(rot, d, d)                  \* as a sequence of darts
Rng(s) == {s[i] : i \in 1..Len(s)}
FaceSets(rot, D) == {Rng(FaceOf(rot, d)) : d \in D}
\* one traced sequence per face
RECURSIVE FaceListRec(_, _)
FaceListRec(rot, D) == IF D = {} THEN << >>
    ELSE LET d == CHOOSE x \in D : TRUE  f == FaceOf(rot, d) IN <<f>> \o FaceListRec(rot, D \ Rng(f))
FaceList(rot, D) == FaceListRec(rot, D)
\* reachability
RECURSIVE ReachRec(_, _, _)
ReachRec(E, S, front) == IF front = {} THEN S ELSE
    LET nx == {v \in UNION {{e[1], e[2]} : e \in {x \in E : x[1] \in front \/ x[2] \in front}} : v \notin S}
    IN ReachRec(E, S \cup nx, nx)
Reach(E, v) == ReachRec(E, {v}, {v})
Connected(V, E) == V = {} \/ \A v \in {CHOOSE x \in V : TRUE} : Reach(E, v) = V
RECURSIVE CompCount(_, _)
CompCount(V, E) == IF V = {} THEN 0 ELSE 1 + CompCount(V \ Reach(E, CHOOSE x \in V : TRUE), E)
IsTreeOn(V, T) == Connected(V, T) /\ Cardinality(T) = Cardinality(V) - 1
SpanningTrees(V, E) == {T \in SUBSET E : IsTreeOn(V, T)}
\* distance layers from r
RECURSIVE DepthRec(_, _, _, _)
DepthRec(E, S, front, k) ==
    LET nx == {v \in UNION {{e[1], e[2]} : e \in {x \in E : x[1] \in front \/ x[2] \in front}} : v \notin S}
    IN IF nx = {} THEN k ELSE DepthRec(E, S \cup nx, nx, k + 1)
Depth(E, r) == DepthRec(E, {r}, {r}, 0)
\* perfect matchings as sets of edges
RECURSIVE MatchingsRec(_, _)
MatchingsRec(vs, E) == IF vs = << >> THEN {{}}
    ELSE LET r == Tail1(vs) IN
         UNION {{m \cup {Und(vs[1], r[k])} : m \in MatchingsRec(Drop(r, k), E)} : k \in {j \in 1..Len(r) : Und(vs[1], r[j]) \in E}}
Matchings(n, E) == IF n % 2 = 1 THEN {} ELSE MatchingsRec(Iota(n), E)
\* weighted count: w maps each edge to an integer (as a matrix)
AdjW(n, ws) == MkMat(n, n, LAMBDA i, j : LET S == {k \in 1..Len(ws) : Und(ws[k][1], ws[k][2]) = Und(i, j)} IN
                      IF i = j \/ S = {} THEN CZero ELSE <<ws[CHOOSE k \in S : TRUE][3], 0>>)
WCount(n, ws) == Hf(AdjW(n, ws))[1]
\* an orientation P (matrix of 0, 1, -1; the upper triangle counts) under which all
\* matchings have the same sign: their signed sum is their number, up to sign
Upper(P) == MkMat(Len(P), Len(P), LAMBDA i, j : IF i < j THEN <<P[i][j], 0>> ELSE IF j < i THEN <<-P[j][i], 0>> ELSE CZero)
Adj01(n, E) == MkMat(n, n, LAMBDA i, j : IF i # j /\ Und(i, j) \in E THEN COne ELSE CZero)
NMatchings(n, E) == Hf(Adj01(n, E))[1]
PfaffianOrientation(n, E, P) ==
    /\ \A i, j \in 1..n : i < j => (IF <<i, j>> \in E THEN P[i][j] \in {1, -1} ELSE P[i][j] = 0)
    /\ Abs(Pf(Upper(P))[1]) = NMatchings(n, E)
\* the sign of a face under an orientation: -1 is the Kasteleyn condition
RECURSIVE FaceSignRec(_, _, _)
FaceSignRec(P, f, k) == IF k = 0 THEN 1
    ELSE FaceSignRec(P, f, k - 1) * (IF f[k][1] < f[k][2] THEN P[f[k][1]][f[k][2]] ELSE -P[f[k][2]][f[k][1]])
FaceSign(P, f) == FaceSignRec(P, f, Len(f))
=============================================================================
