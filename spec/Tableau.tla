------------------------------ MODULE Tableau -------------------------------
(***************************************************************************)
(* Stabilizer groups beside state vectors.  A group is a set of <<e, s>>:    *)
(* the Pauli string e with the sign s fixes the state.                       *)
(***************************************************************************)
EXTENDS Stab
XBit(l) == IF l \in {1, 2} THEN 1 ELSE 0
ZBit(l) == IF l \in {2, 3} THEN 1 ELSE 0
LetterOf(x, z) == IF x = 1 THEN (IF z = 1 THEN 2 ELSE 1) ELSE IF z = 1 THEN 3 ELSE 0
WithLetter(n, e, q, l) == e + (l - Letter(n, e, q - 1)) * (4 ^ (n - q))
\* conjugation of a signed string by a gate
ConjH(n, g, q) == LET l == Letter(n, g[1], q - 1) IN
    <<WithLetter(n, g[1], q, CASE l = 0 -> 0 [] l = 1 -> 3 [] l = 2 -> 2 [] l = 3 -> 1), IF l = 2 THEN -g[2] ELSE g[2]>>
ConjS(n, g, q) == LET l == Letter(n, g[1], q - 1) IN
    <<WithLetter(n, g[1], q, CASE l = 0 -> 0 [] l = 1 -> 2 [] l = 2 -> 1 [] l = 3 -> 3), IF l = 2 THEN -g[2] ELSE g[2]>>
ConjCX(n, g, c, t) ==
    LET a == Letter(n, g[1], c - 1)  b == Letter(n, g[1], t - 1)
        xt == (XBit(b) + XBit(a)) % 2  zc == (ZBit(a) + ZBit(b)) % 2
        neg == XBit(a) = 1 /\ ZBit(b) = 1 /\ (XBit(b) + ZBit(a) + 1) % 2 = 1
    IN <<WithLetter(n, WithLetter(n, g[1], c, LetterOf(XBit(a), zc)), t, LetterOf(xt, ZBit(b))), IF neg THEN -g[2] ELSE g[2]>>
ConjGate(n, g, op) == CASE op[1] = "h" -> ConjH(n, g, op[2]) [] op[1] = "s" -> ConjS(n, g, op[2]) [] op[1] = "cx" -> ConjCX(n, g, op[2], op[3])
ZString(n, q) == 3 * (4 ^ (n - q))
Commute(n, e, f) == Cardinality({q \in 0..(n - 1) : LET a == Letter(n, e, q) b == Letter(n, f, q) IN a # 0 /\ b # 0 /\ a # b}) % 2 = 0
SignedMul(n, g, h) == LET p == PMul(n, g[1], h[1]) IN <<p[2], g[2] * h[2] * (IF p[1] = 0 THEN 1 ELSE -1)>>    \* commuting strings
\* projecting on the outcome o of Z on qubit q
CanMeasure(n, G, q, o) == <<ZString(n, q), -o>> \notin G
Collapse(n, G, q, o) == LET K == {g \in G : Commute(n, g[1], ZString(n, q))} IN
    K \cup {SignedMul(n, g, <<ZString(n, q), o>>) : g \in K}
Project(n, v, q, o) == [i \in 1..(2 ^ n) |-> IF (BitOf(n, i - 1, q) = 0) = (o = 1) THEN v[i] ELSE CZero]
\* the group read off a state (unnormalised matrix rho of trace t)
GroupOf(n, rho, t) == {<<e, Sgn(PExpect(n, e, rho)[1])>> : e \in {e \in 0..(4 ^ n - 1) : PExpect(n, e, rho) # CZero}}
\* a group of 2^n commuting signed strings without -1
IsGroup(n, G) ==
    /\ Cardinality(G) = 2 ^ n /\ <<0, 1>> \in G
    /\ \A g, h \in G : Commute(n, g[1], h[1]) /\ SignedMul(n, g, h) \in G
RECURSIVE StabCount(_, _)
StabCount(n, k) == IF k = 0 THEN 2 ^ n ELSE (2 ^ k + 1) * StabCount(n, k - 1)
=============================================================================
