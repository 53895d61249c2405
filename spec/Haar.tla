-------------------------------- MODULE Haar --------------------------------
(***************************************************************************)
(* Moments of the invariant distributions, as fractions <<p, q>>, and the    *)
(* test a sample mean has to pass.  M_C33 shows that the fractions are the   *)
(* averages over closed orbits (spherical, unitary and simplex designs).     *)
(***************************************************************************)
EXTENDS Num
\* coordinates of a uniformly distributed direction of R^N
SphM(N, k) == CASE k = 2 -> <<1, N>> [] k = 4 -> <<3, N * (N + 2)>> [] k = 6 -> <<15, N * (N + 2) * (N + 4)>>
                [] k = 8 -> <<105, N * (N + 2) * (N + 4) * (N + 6)>>
\* two coordinates of one direction
SphM22(N) == <<1, N * (N + 2)>>
\* rotations: x_11^2 x_22^2 and x_11 x_22 x_12 x_21
RotM22(N) == <<N + 1, N * (N - 1) * (N + 2)>>
RotM1111(N) == <<-1, N * (N - 1) * (N + 2)>>
\* weights of a uniformly distributed complex direction; equally the uniform distribution on the simplex
SimM(d, k) == CASE k = 1 -> <<1, d>> [] k = 2 -> <<2, d * (d + 1)>> [] k = 3 -> <<6, d * (d + 1) * (d + 2)>>
                [] k = 4 -> <<24, d * (d + 1) * (d + 2) * (d + 3)>>
SimM11(d) == <<1, d * (d + 1)>>
SimM22(d) == <<4, d * (d + 1) * (d + 2) * (d + 3)>>
\* a rotated spectrum: diagonal element squared and coherence squared, for the purity p/q
MixM2(d, P) == <<P[1] + P[2], P[2] * d * (d + 1)>>
MixC2(d, P) == <<d * P[1] - P[2], P[2] * d * (d * d - 1)>>
\* covariance of a rotated occupation state: element squared, and the product of complementary elements (N = 4)
GauM2(N) == <<1, N - 1>>
GauM11 == <<1, 3>>
FracEq(a, b) == a[1] * b[2] = b[1] * a[2]
\* ------------------------------------------------------------ sample means
\* PX: the integer x stands for x / 2^12
PXS == 4096
PXMul(a, b) == (a * b + 2048) \div 4096
PXTwo(a) == PXMul(a, a)
\* m values with the sum S (PX), expected mean e, variance at most v: six standard deviations and the rounding
MeanOK(S, m, e, v) ==
    LET d == Abs(S \div m - (e[1] * PXS) \div e[2]) - 3 IN
    d <= 0 \/ (d < 40000 /\ d * d <= (((36 * 16777216) \div m) * v[1]) \div v[2])
\* counts c of K equally likely results in m draws (sum of squares s2)
ChiOK(s2, m, K) ==
    LET chi == (((16 * s2) \div m) * K) \div 16 - m  x == Min2(chi - (K - 1) - 20, 40000) IN x <= 0 \/ x * x <= 128 * (K - 1)
=============================================================================
