-------------------------------- MODULE Prob --------------------------------
(***************************************************************************)
(* States and distributions.                                                *)
(*  - matrices of Gaussian integers over a common denominator: hermitian,   *)
(*    positive (all principal minors), of unit trace;                        *)
(*  - vectors as wavefunctions (unit 2-norm) or distributions (unit 1-norm); *)
(*  - distributions as counts over their total; logarithms and powers of     *)
(*    rationals in fixed point.                                              *)
(***************************************************************************)
EXTENDS Num
\* --------------------------------------------------------------- positivity
SubMat(M, s) == MkMat(Len(s), Len(s), LAMBDA i, j : M[s[i]][s[j]])
RECURSIVE Members(_, _, _)
Members(S, k, n) == IF k > n THEN << >> ELSE IF k \in S THEN <<k>> \o Members(S, k + 1, n) ELSE Members(S, k + 1, n)
IsHermitian(M) == \A i, j \in 1..Len(M) : M[i][j] = CConj(M[j][i])
IsPSD(M) == IsHermitian(M) /\ \A S \in (SUBSET (1..Len(M))) \ {{}} : CDet(SubMat(M, Members(S, 1, Len(M))))[1] >= 0
IsState(M, den) == IsHermitian(M) /\ CTrace(M) = <<den, 0>> /\ IsPSD(M)
Square(M) == \A i \in 1..Len(M) : Len(M[i]) = Len(M)
\* ------------------------------------------------------------------- vectors
Outer(v) == MkMat(Len(v), Len(v), LAMBDA i, j : CMul(v[i], CConj(v[j])))
Diagonal(v) == MkMat(Len(v), Len(v), LAMBDA i, j : IF i = j THEN v[i] ELSE CZero)
Norm2(v) == SumTo([i \in 1..Len(v) |-> CAbs2(v[i])], Len(v))
\* the integer modulus of a Gaussian integer, or -1
Modulus(z) == LET s == CAbs2(z)
                  C == {r \in Max2(Abs(z[1]), Abs(z[2]))..(Abs(z[1]) + Abs(z[2])) : r * r = s}
              IN IF C = {} THEN -1 ELSE CHOOSE r \in C : TRUE
Norm1Is(v, den) == (\A i \in 1..Len(v) : Modulus(v[i]) >= 0)
                   /\ SumTo([i \in 1..Len(v) |-> Modulus(v[i])], Len(v)) = den
\* what a vector v / den is taken for: <<kind, matrix, its denominator>>
Cast(v, den) ==
    IF Norm2(v) = den * den THEN <<"wave", Outer(v), den * den>>
    ELSE IF Norm1Is(v, den) THEN (IF IsState(Diagonal(v), den) THEN <<"dist", Diagonal(v), den>> ELSE <<"refused", << >>, 1>>)
    ELSE <<"refused", << >>, 1>>
CastMat(M, den) == IF Square(M) /\ IsState(M, den) THEN <<"state", M, den>> ELSE <<"refused", << >>, 1>>
Pdf(M) == [i \in 1..Len(M) |-> M[i][i][1]]
\* --------------------------------------------- logarithms of integers, fixed point
\* ln k for 1 <= k < 2^31
LnInt(k) == FMulC(FLog2(k) + 24 * FXS, FLN2)
LnRat(c, d) == LnInt(c) - LnInt(d)
Support(c) == {i \in 1..Len(c) : c[i] > 0}
\* sum over the support
RECURSIVE SumOn(_, _)
SumOn(f, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN f[i] + SumOn(f, S \ {i})
\* Shannon entropy of counts c over d
\* (small probabilities are kept 16 times as large until they are summed)
Shannon(c, d) ==
    LET tiny == {i \in Support(c) : c[i] < d \div 1024}
        f == [i \in 1..Len(c) |-> IF c[i] = 0 THEN 0 ELSE FMul(FRat(IF i \in tiny THEN 16 * c[i] ELSE c[i], d), LnRat(c[i], d))]
    IN -(SumOn(f, Support(c) \ tiny) + SumOn(f, tiny) \div 16)
Scale16(x, u) == (x \div 16) * u + ((x % 16) * u) \div 16
Scale4096(x, w) == (x \div 4096) * w + ((x % 4096) * w) \div 4096
\* Renyi entropy of order a = w/4096, 0 < w # 4096:  with m the largest count,
\*   S = (a ln(m/d) + ln sum (c/m)^a) / (1 - a)
\* (a long sum is taken in quarters)
Quarters(c) == IF Len(c) > 100 THEN 4 ELSE 1
PowerSum(c, m, w) == SumOn([i \in 1..Len(c) |->
    IF c[i] = 0 THEN 0
    ELSE LET x == LnRat(c[i], m) IN
         IF w > 4096 /\ x < -(((20 * FXS) \div w) * 4096) THEN 0 ELSE FExp(Scale4096(x, w)) \div Quarters(c)], Support(c))
RenyiClosed(c, d, w) ==
    LET m == MaxTo(c, Len(c))
        l == FLn(PowerSum(c, m, w)) + LnInt(Quarters(c))
    IN IF w <= 8192
       THEN LET top == Scale4096(LnRat(m, d), w) + l IN
            IF w < 4096 THEN FMul(top, FRat(4096, 4096 - w)) ELSE -FMul(top, FRat(4096, w - 4096))
       ELSE FMul(FRat(w, w - 4096), LnRat(d, m)) - FMul(FRat(4096, w - 4096), l)
\* near order 1 the cumulants k1, k2, ... of -ln p:  S = k1 + k2 t/2 + k3 t^2/6 + k4 t^3/24 + ..., t = 1 - a
\* (small probabilities are kept 16 times as large until they are summed for k2)
RenyiSeries(c, d, w) ==
    LET k1 == Shannon(c, d)
        t == (4096 - w) * 4096
        y == [i \in 1..Len(c) |-> IF c[i] = 0 THEN 0 ELSE -LnRat(c[i], d) - k1]
        tiny == {i \in Support(c) : c[i] < d \div 1024}
        f2 == [i \in 1..Len(c) |-> FMul(FMul(FRat(IF i \in tiny THEN 16 * c[i] ELSE c[i], d), y[i]), y[i])]
        f3 == [i \in 1..Len(c) |-> FMul(IF i \in tiny THEN f2[i] \div 16 ELSE f2[i], y[i])]
        f4 == [i \in 1..Len(c) |-> FMul(f3[i], y[i])]
        all(f) == SumOn(f, Support(c) \ tiny) + SumOn(f, tiny) \div 16
        k2 == all(f2)
        k3 == SumOn(f3, Support(c))
        k4 == SumOn(f4, Support(c)) - 3 * FMul(k2, k2)
    IN k1 + FMul(t, k2 \div 2 + FMul(t, k3 \div 6 + FMul(t, k4 \div 24)))
\* order w/4096; 0 = Hartley, -1 = infinity
RenyiAt(c, d, w) == CASE w = 0 -> LnInt(Cardinality(Support(c)))
                      [] w = -1 -> -LnRat(MaxTo(c, Len(c)), d)
                      [] w = 4096 -> Shannon(c, d)
                      [] OTHER -> IF Abs(w - 4096) <= 128 THEN RenyiSeries(c, d, w) ELSE RenyiClosed(c, d, w)
RenyiTol(w) == 300 + (IF w <= 0 THEN 0 ELSE IF Abs(w - 4096) <= 128 THEN 200 ELSE 81920 \div Abs(w - 4096))
\* order u/16
Renyi(c, d, u) == RenyiAt(c, d, IF u <= 0 THEN u ELSE 256 * u)
\* ---------------------------------------------- pairs of distributions c/d, e/f
Inside(c, e) == Support(c) \subseteq Support(e)
KL(c, d, e, f) == SumOn([i \in 1..Len(c) |-> IF c[i] = 0 THEN 0 ELSE FMul(FRat(c[i], d), LnRat(c[i], d) - LnRat(e[i], f))], Support(c))
\* twice d f times the total variation distance
TV2(c, d, e, f) == SumTo([i \in 1..Len(c) |-> Abs(c[i] * f - e[i] * d)], Len(c))
Bhatta(c, d, e, f) == SumTo([i \in 1..Len(c) |-> FMul(FSqrt(FRat(c[i], d)), FSqrt(FRat(e[i], f)))], Len(c))
\* the mean distribution is mid / (2 d f)
Mid(c, d, e, f) == [i \in 1..Len(c) |-> c[i] * f + e[i] * d]
JS(c, d, e, f) == LET m == Mid(c, d, e, f) IN (KL(c, d, m, 2 * d * f) + KL(e, f, m, 2 * d * f)) \div 2
=============================================================================
