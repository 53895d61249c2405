------------------------------- MODULE M_C26 --------------------------------
(***************************************************************************)
(* Circuits on the stabilizer machine.                                      *)
(***************************************************************************)
EXTENDS Stab, Json
CONSTANTS Ns, L
VARIABLES n, v, magic, hist
vars == <<n, v, magic, hist>>
Gates == {<<"h", q>> : q \in 1..n} \cup {<<"s", q>> : q \in 1..n} \cup {<<"m", q>> : q \in 1..n}
         \cup {<<"cx", q, r>> : q \in 1..n, r \in 1..n}
Init == n \in Ns /\ v = Start(n) /\ magic = 0 /\ hist = << >>
Do(g) == /\ Len(hist) < L
         /\ g[1] = "cx" => g[2] # g[3]
         /\ g[1] = "m" => magic < 2
         /\ v' = Apply(n, v, g) /\ magic' = magic + (IF g[1] = "m" THEN 1 ELSE 0)
         /\ hist' = Append(hist, g) /\ UNCHANGED n
Next == \E g \in Gates : Do(g)
rho == Outer(v)
W == Weights(n, rho)
Tot == WeightTotal(n, rho)
Tol == 800
Normalised == SumSeq(W) = Tot /\ \A e \in 1..(4 ^ n) : W[e] >= 0
\* a Clifford circuit makes a stabilizer state: 2^n strings of weight 2^-n
IsStab(w, t) == Cardinality(Support(w)) = 2 ^ n /\ \A e \in Support(w) : w[e] * (2 ^ n) = t
Stabilizer == magic = 0 => IsStab(W, Tot)
Orders == {8, 16, 24, 32, 48, -1}
ZeroIff == \A u \in Orders : LET s == SREof(n, W, Tot, u) IN s >= -Tol /\ (IsStab(W, Tot) => s <= Tol)
\* a Clifford gate permutes the weights
Multiset(w, t) == {<<x, Cardinality({e \in 1..Len(w) : w[e] = x})>> : x \in {w[e] : e \in 1..Len(w)}}
Ratio(w, t, w2, t2) == \A x \in Multiset(w, t) : \E y \in Multiset(w2, t2) : x[1] * (t2 \div (2 ^ n)) = y[1] * (t \div (2 ^ n)) /\ x[2] = y[2]
CliffordInvariant == magic < 2 => \A g \in {<<"h", 1>>, <<"s", n>>} \cup (IF n > 1 THEN {<<"cx", 1, 2>>, <<"cx", 2, 1>>} ELSE {}) :
    LET r2 == Outer(Apply(n, v, g)) IN Ratio(W, Tot, Weights(n, r2), WeightTotal(n, r2))
\* products: weights multiply, entropies add
Tensor2(a, b) == [i \in 1..(Len(a) * Len(b)) |-> CMul(a[((i - 1) \div Len(b)) + 1], b[((i - 1) % Len(b)) + 1])]
Products == (n = 1 /\ magic < 2) => LET t == <<<<1, 0>>, <<1, 1>>>>  w2 == Weights(1, Outer(t)) x == Weights(2, Outer(Tensor2(v, t))) IN
    \A e, f \in 0..3 : x[4 * e + f + 1] = W[e + 1] * w2[f + 1]
Emit == Len(hist) = L => PrintT("SCEN " \o ToJson([n |-> n, ops |-> hist]))
=============================================================================
