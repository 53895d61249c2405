------------------------------- MODULE M_C30 --------------------------------
(***************************************************************************)
(* Circuits of Gaussian and other operations on occupation states, with the  *)
(* rotation the Gaussian ones perform on the Majorana operators tracked       *)
(* beside the state.                                                         *)
(***************************************************************************)
EXTENDS Cov, Json
CONSTANTS N, L, Kinds
VARIABLES v, den, cov, hist, others, prev, last
vars == <<v, den, cov, hist, others, prev, last>>
M2 == 2 * N
Ops == (IF "rot" \in Kinds THEN {<<"rot", i, j>> : i \in 1..M2, j \in 1..M2} ELSE {})
       \cup {<<"braid", i, j>> : i \in 1..M2, j \in 1..M2}
       \cup (IF "int" \in Kinds THEN {<<"int", p, q>> : p \in 1..N, q \in 1..N} ELSE {})
       \cup (IF "mix" \in Kinds THEN {<<"mix", p>> : p \in 1..N} ELSE {})
Gaussian(g) == g[1] \in {"rot", "braid"}
Den(x) == Norm2(x)
CovOf(x) == CovV(N, x)
Init == \E b \in 0..(Dim(N) - 1) : v = BasisVec(N, b) /\ den = 1 /\ hist = <<b>> /\ others = 0 /\ prev = << >> /\ cov = CovOf(BasisVec(N, b)) /\ last = << >>
Do(g) == /\ Len(hist) <= L
         /\ g[1] # "mix" => (IF g[1] = "int" THEN g[2] < g[3] ELSE g[2] # g[3])
         /\ v' = TLCEval(DoOp(N, v, g)) /\ den' = Norm2(v') /\ prev' = cov /\ cov' = CovOf(v')
         /\ hist' = Append(hist, g) /\ others' = others + (IF Gaussian(g) THEN 0 ELSE 1)
         /\ last' = <<g, den>>
Next == \E g \in Ops : Do(g)
Mcov == cov
Anti == /\ LET c == CovVC(N, v) IN \A i, j \in 1..M2 : c[i][j][2] = 0
        /\ CovV(N, v) = Cov(N, Outer(v))
        /\ \A i, j \in 1..M2 : Mcov[i][j] = -Mcov[j][i] /\ Abs(Mcov[i][j]) <= den
\* a circuit of Gaussian operations only leaves M^T M = 1
FlatIfGaussian == others = 0 => LET X == Mcov IN \A i, j \in 1..M2 : SumTo([k \in 1..M2 |-> X[k][i] * X[k][j]], M2) = IF i = j THEN den * den ELSE 0
\* one Gaussian operation V rotates the covariance: with V^-1 g_a V = sum_b O_ab g_b,
\* M' = O M O^T
Plane(g) == LET c == IF g[1] = "rot" THEN <<-7, 24, 25>> ELSE <<0, 1, 1>> IN    \* twice the angle of 3 + 4i
    [a \in 1..M2 |-> [b \in 1..M2 |->
        IF a = g[2] THEN (IF b = g[2] THEN c[1] ELSE IF b = g[3] THEN c[2] ELSE 0)
        ELSE IF a = g[3] THEN (IF b = g[3] THEN c[1] ELSE IF b = g[2] THEN -c[2] ELSE 0)
        ELSE IF a = b THEN c[3] ELSE 0]]
Rotates == (last # << >> /\ Gaussian(last[1])) =>
    LET O == Plane(last[1])  s == (IF last[1][1] = "rot" THEN 625 ELSE 1)
        R == IMatMul(IMatMul(O, prev), ITransp(O)) X == Mcov IN
    \A i, j \in 1..M2 : X[i][j] * last[2] * s = R[i][j] * den
Sums == LET G == Gram(CovFX(Mcov, den)) IN PowerSums(G, G, 4)
Bounded == LET s == Sums IN /\ s[1] <= N * FXS + 400 /\ s[4] >= -400 /\ \A k \in 1..3 : s[k + 1] <= s[k] + 400
                            /\ (others = 0 => \A k \in 1..4 : FNear(s[k], N * FXS, 800))
RankBound == N <= 3 => LET r == HalfRank(Mcov) IN r <= N /\ (others = 0 => r = N) /\ (r = 0) = (\A i, j \in 1..M2 : Mcov[i][j] = 0)
\* pure even states of up to three sites are all Gaussian
FewSites == (N <= 3 /\ \A x \in 1..Len(hist) : x > 1 => hist[x][1] # "mix") => FNear(Sums[2], N * FXS, 800)
Emit == Len(hist) = L + 1 => PrintT("SCEN " \o ToJson([n |-> N, b |-> hist[1], ops |-> SubSeq(hist, 2, L + 1)]))
=============================================================================
