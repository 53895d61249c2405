-------------------------------- MODULE Stab --------------------------------
(***************************************************************************)
(* The stabilizer machine: Gaussian-integer state vectors (a common factor  *)
(* is irrelevant) under Clifford and non-Clifford gates; the weights of the  *)
(* Pauli strings, c_P = tr(rho P)^2 over 2^n tr rho^2.                       *)
(* Qubit 1 is the leftmost tensor factor.                                    *)
(***************************************************************************)
EXTENDS Pauli, Prob
BitOf(n, b, q) == Bit(n, b, q - 1)
FlipBit(n, b, q) == IF BitOf(n, b, q) = 0 THEN b + 2 ^ (n - q) ELSE b - 2 ^ (n - q)
\* exact division of the whole vector by 2 when possible
Even(v) == \A i \in 1..Len(v) : v[i][1] % 2 = 0 /\ v[i][2] % 2 = 0
Reduce(v) == IF Even(v) THEN [i \in 1..Len(v) |-> <<v[i][1] \div 2, v[i][2] \div 2>>] ELSE v
GateH(n, v, q) == Reduce([i \in 1..(2 ^ n) |-> LET b == i - 1 f == FlipBit(n, b, q) IN
    IF BitOf(n, b, q) = 0 THEN CAdd(v[i], v[f + 1]) ELSE CSub(v[f + 1], v[i])])
GateS(n, v, q) == [i \in 1..(2 ^ n) |-> IF BitOf(n, i - 1, q) = 1 THEN CI(v[i]) ELSE v[i]]
GateX(n, v, q) == [i \in 1..(2 ^ n) |-> v[FlipBit(n, i - 1, q) + 1]]
GateCX(n, v, q, r) == [i \in 1..(2 ^ n) |-> IF BitOf(n, i - 1, q) = 1 THEN v[FlipBit(n, i - 1, r) + 1] ELSE v[i]]
\* diag(1, (3 + 4i)/5), not a Clifford gate
GateM(n, v, q) == [i \in 1..(2 ^ n) |-> IF BitOf(n, i - 1, q) = 1 THEN CMul(<<3, 4>>, v[i]) ELSE CScale(5, v[i])]
Apply(n, v, g) == CASE g[1] = "h" -> GateH(n, v, g[2]) [] g[1] = "s" -> GateS(n, v, g[2]) [] g[1] = "x" -> GateX(n, v, g[2])
                    [] g[1] = "cx" -> GateCX(n, v, g[2], g[3]) [] g[1] = "m" -> GateM(n, v, g[2])
Start(n) == [i \in 1..(2 ^ n) |-> IF i = 1 THEN COne ELSE CZero]
\* weights of all Pauli strings for a matrix rho (any denominator), and their total
Weights(n, rho) == TLCEval([e \in 1..(4 ^ n) |-> LET x == PExpect(n, e - 1, rho)[1] IN x * x])
WeightTotal(n, rho) == (2 ^ n) * SumTo([i \in 1..Len(rho) |-> SumTo([j \in 1..Len(rho) |-> CAbs2(rho[i][j])], Len(rho))], Len(rho))
\* stabilizer Renyi entropy of order u/16
SREof(n, c, t, u) == IF Cardinality(Support(c)) = 1 THEN 0 ELSE Renyi(c, t, u) - n * FLN2
=============================================================================
