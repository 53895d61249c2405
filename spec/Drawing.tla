------------------------------ MODULE Drawing -------------------------------
(***************************************************************************)
(* A figure, as the reader sees it: dots at points of the plane, texts at   *)
(* points, plain lines and arrows (from a point to a point), each plain or  *)
(* highlighted.  Nothing in a figure says which node or edge a mark stands  *)
(* for; reading it is geometry.  Points are pairs of integers.              *)
(***************************************************************************)
EXTENDS Graph
Cross(u, v, p) == (v[1] - u[1]) * (p[2] - u[2]) - (v[2] - u[2]) * (p[1] - u[1])
Dot(u, v, p) == (v[1] - u[1]) * (p[1] - u[1]) + (v[2] - u[2]) * (p[2] - u[2])
Sq(u, v) == Dot(u, v, v)
L1(u, v) == Abs(v[1] - u[1]) + Abs(v[2] - u[2])
\* p lies on the segment from u to v, up to tol
OnSeg(u, v, p, tol) == /\ Abs(Cross(u, v, p)) <= tol * (1 + L1(u, v))
                       /\ Dot(u, v, p) >= 0 /\ Dot(u, v, p) <= Sq(u, v)
\* p lies beside an arc drawn from u to v that bends to the right (by at most a quarter of its length)
BesideArc(u, v, p) == /\ Cross(u, v, p) < 0 /\ 4 * Abs(Cross(u, v, p)) <= Sq(u, v)
                      /\ Dot(u, v, p) >= 0 /\ Dot(u, v, p) <= Sq(u, v)
\* two segments cross in their inside (by more than tol)
Strict(x, tol) == IF x > tol THEN 1 ELSE IF x < -tol THEN -1 ELSE 0
Crossing(a, b, c, d, tol) ==
    /\ Strict(Cross(a, b, c), tol) * Strict(Cross(a, b, d), tol) = -1
    /\ Strict(Cross(c, d, a), tol) * Strict(Cross(c, d, b), tol) = -1
\* reading a figure: the node whose dot is at p (0: none); a node's dot is the one its name is written on
NodeAt(at, p) == LET S == {i \in 1..Len(at) : at[i] = p} IN IF Cardinality(S) = 1 THEN CHOOSE i \in S : TRUE ELSE 0
Same(a, b) == Len(a) = Len(b) /\ \A x \in Rng(a) \cup Rng(b) :
                  Cardinality({i \in 1..Len(a) : a[i] = x}) = Cardinality({i \in 1..Len(b) : b[i] = x})
=============================================================================
