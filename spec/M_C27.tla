------------------------------- MODULE M_C27 --------------------------------
(***************************************************************************)
(* Distributions filled count by count, and their entropies of all orders.  *)
(***************************************************************************)
EXTENDS Prob, Json
CONSTANTS N, T
VARIABLES c, last
vars == <<c, last>>
Init == \E n \in 1..N : c = [i \in 1..n |-> 0] /\ last = 0
d == SumSeq(c)
Fill(i) == d < T /\ c' = [c EXCEPT ![i] = @ + 1] /\ last' = i
Next == \E i \in 1..Len(c) : Fill(i)
Orders == <<0, 1, 40, 256, 1024, 2048, 3072, 3967, 3968, 4090, 4095, 4096, 4097, 4170, 4224, 4225, 5120, 6144, 8192, 8193, 12288, 40960, 409600, -1>>
S(x, u) == RenyiAt(x, SumSeq(x), u)
Tol(u) == RenyiTol(u)
Near(a, b, u) == Abs(a - b) <= Tol(u)
Few == {0, 1024, 4090, 4096, 8192, 40960, -1}
Us == {Orders[k] : k \in 1..Len(Orders)}
Perms == {p \in [1..Len(c) -> 1..Len(c)] : \A i, j \in 1..Len(c) : i # j => p[i] # p[j]}
Times(a, b) == [k \in 1..(Len(a) * Len(b)) |-> a[((k - 1) \div Len(b)) + 1] * b[((k - 1) % Len(b)) + 1]]
Bounds == d > 0 => \A u \in Us : S(c, u) >= -Tol(u) /\ S(c, u) <= LnInt(Cardinality(Support(c))) + Tol(u)
NonIncreasing == d > 0 => \A k \in 1..(Len(Orders) - 1) : S(c, Orders[k + 1]) <= S(c, Orders[k]) + Tol(Orders[k]) + Tol(Orders[k + 1])
Symmetric == d > 0 => \A p \in Perms : \A u \in {2048, 4095, 12288} : Near(S([i \in 1..Len(c) |-> c[p[i]]], u), S(c, u), u)
Additive == d > 0 => \A u \in Few : LET b == <<1, 2>> IN Abs(S(Times(c, b), u) - S(c, u) - S(b, u)) <= 3 * Tol(u)
Deterministic == d > 0 /\ Cardinality(Support(c)) = 1 => \A u \in Us : Near(S(c, u), 0, u)
Uniform == d > 0 /\ (\A i \in Support(c) : c[i] = c[last]) => \A u \in Us : Near(S(c, u), LnInt(Cardinality(Support(c))), u)
\* moving a count from a larger to a smaller entry does not decrease any entropy
Spread == d > 0 => \A i, j \in 1..Len(c) : c[i] > c[j] + 1 =>
    \A u \in Few \ {0} : S([c EXCEPT ![i] = @ - 1, ![j] = @ + 1], u) >= S(c, u) - 2 * Tol(u)
\* order 2 in closed form, against -ln of the purity
Collision == d > 0 => Near(S(c, 8192), LnRat(d * d, SumTo([i \in 1..Len(c) |-> c[i] * c[i]], Len(c))), 8192)
\* the closed form and the expansion about order one agree where both are accurate
Matching == d > 0 => \A w \in {3968, 4000, 4192, 4224} : Abs(RenyiClosed(c, d, w) - RenyiSeries(c, d, w)) <= 300 + 81920 \div Abs(w - 4096)
Emit == d > 0 => PrintT("SCEN " \o ToJson([c |-> c]))
=============================================================================
