------------------------------- MODULE M_C22 --------------------------------
(***************************************************************************)
(* Cleaning sessions: a pair of complex numbers is cleaned again and again  *)
(* with thresholds <<p, t>> (round to multiples of p, then zero what is     *)
(* below t).  Ties may go either way.  Next to it, a counter written out in *)
(* decimal.                                                                  *)
(***************************************************************************)
EXTENDS Text, Json
CONSTANTS Vals, Ims, L
ValsDef == {-26, -15, -4, 0, 6, 10, 96}
ImsDef == {-25, -3, 0, 9, 14}
ValsDeep == {-104, -95, -26, -15, -10, -4, 0, 3, 5, 6, 10, 45, 96}
ImsDeep == {-96, -25, -10, -3, 0, 4, 5, 9, 14, 50}
VARIABLES v, was, last, ops
vars == <<v, was, last, ops>>
Thresholds == {<<10, 10>>, <<10, 4>>, <<10, 25>>, <<100, 100>>, <<100, 40>>}
Init == /\ v \in {<<<<a, b>>, <<c, 0>>>> : a, c \in Vals, b \in Ims}
        /\ was = v /\ last = <<1, 1>> /\ ops = << >>
Clean(p, t) ==
    LET u == IF DropsIm(v, t) THEN <<RealPart(v[1]), RealPart(v[2])>> ELSE v IN
    /\ Len(ops) < L
    /\ \E a \in Cleaned(u[1], p, t), b \in Cleaned(u[2], p, t) : v' = <<a, b>>
    /\ was' = v /\ last' = <<p, t>> /\ ops' = Append(ops, <<p, t>>)
Next == \E x \in Thresholds : Clean(x[1], x[2])
P == last[1]
T == last[2]
OnLattice == \A k \in 1..2 : v[k][1] % P = 0 /\ v[k][2] % P = 0
NothingSmall == \A k \in 1..2 : v[k] = CZero \/ ~Below(v[k], T)
Close == \A k \in 1..2 : \A c \in 1..2 :
    \/ 2 * Abs(v[k][c] - was[k][c]) <= P                      \* rounded
    \/ v[k] = CZero /\ Abs(was[k][c]) < T + P                 \* zeroed
    \/ c = 2 /\ v[k][2] = 0 /\ Abs(was[k][2]) < T             \* imaginary part dropped
\* cleaning twice with p = t changes nothing
Idempotent == P = T => LET u == IF DropsIm(v, T) THEN <<RealPart(v[1]), RealPart(v[2])>> ELSE v IN
    \A k \in 1..2 : Cleaned(u[k], P, T) = {v[k]}
OddSymmetric == \A k \in 1..2 : \A x \in Thresholds :
    {CNeg(r) : r \in Cleaned(v[k], x[1], x[2])} = Cleaned(CNeg(v[k]), x[1], x[2])
\* the text of a number on the lattice is its number
TextOK == \A k \in 1..2 : \A e \in {0, 1, 2, 3} : Cardinality(Fixed(v[k][1], e, e)) = 1
          /\ (v[k][1] >= 0 => Fixed(v[k][1], 0, 0) = {ToString(v[k][1])})
Emit == (Len(ops) = 0) => PrintT("SCEN " \o ToJson([v |-> v]))
=============================================================================
