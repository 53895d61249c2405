-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Exact arithmetic used by every specification module.                    *)
(*                                                                         *)
(*  - integers and Gaussian integers (a complex number is <<re, im>>),     *)
(*    vectors (sequences) and matrices (sequences of rows);                *)
(*  - a fixed-point real type FX: the integer x stands for x / 2^24, used  *)
(*    where a value is irrational (square roots, logarithms, spectra).     *)
(*    TLC integers are 32 bit, so FMul splits its arguments into 12-bit    *)
(*    limbs; it is valid for |x|, |y| <= 8.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(x, y) == IF x > y THEN x ELSE y
Min2(x, y) == IF x < y THEN x ELSE y
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
SumSeq(s) == SumTo(s, Len(s))

RECURSIVE ProdTo(_, _)
ProdTo(f, n) == IF n = 0 THEN 1 ELSE f[n] * ProdTo(f, n - 1)

RECURSIVE MaxTo(_, _)
MaxTo(f, n) == IF n = 1 THEN f[1] ELSE Max2(f[n], MaxTo(f, n - 1))

\* ---------------------------------------------------------- Gaussian integers
CZero == <<0, 0>>
COne == <<1, 0>>
CAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
CSub(x, y) == <<x[1] - y[1], x[2] - y[2]>>
CNeg(x) == <<-x[1], -x[2]>>
CMul(x, y) == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
CConj(x) == <<x[1], -x[2]>>
CScale(k, x) == <<k * x[1], k * x[2]>>
CI(x) == <<-x[2], x[1]>>                        \* i * x
CAbs2(x) == x[1] * x[1] + x[2] * x[2]

RECURSIVE CSumTo(_, _)
CSumTo(f, n) == IF n = 0 THEN CZero ELSE LET a == f[n] b == CSumTo(f, n - 1)
                                         IN <<a[1] + b[1], a[2] + b[2]>>
CSumSeq(s) == CSumTo(s, Len(s))

\* ------------------------------------------------------------------ matrices
Rows(M) == Len(M)
Cols(M) == IF Len(M) = 0 THEN 0 ELSE Len(M[1])
IsShape(M, r, c) == Len(M) = r /\ \A i \in 1..r : Len(M[i]) = c

\* (MkMat evaluates every entry once: TLC functions are lazy otherwise)
MkMat(r, c, f(_, _)) == TLCEval([i \in 1..r |-> TLCEval([j \in 1..c |-> f(i, j)])])

CMatMul(A, B) == LET m == Len(B) IN
    MkMat(Len(A), Cols(B),
          LAMBDA i, j : CSumTo([k \in 1..m |-> CMul(A[i][k], B[k][j])], m))
CMatAdd(A, B) == MkMat(Len(A), Cols(A), LAMBDA i, j : CAdd(A[i][j], B[i][j]))
CMatSub(A, B) == MkMat(Len(A), Cols(A), LAMBDA i, j : CSub(A[i][j], B[i][j]))
CMatScale(k, A) == MkMat(Len(A), Cols(A), LAMBDA i, j : CScale(k, A[i][j]))
CMatCMul(z, A) == MkMat(Len(A), Cols(A), LAMBDA i, j : CMul(z, A[i][j]))
CTransp(A) == MkMat(Cols(A), Len(A), LAMBDA i, j : A[j][i])
CDagger(A) == MkMat(Cols(A), Len(A), LAMBDA i, j : CConj(A[j][i]))
CMatConj(A) == MkMat(Len(A), Cols(A), LAMBDA i, j : CConj(A[i][j]))
CMatNeg(A) == MkMat(Len(A), Cols(A), LAMBDA i, j : CNeg(A[i][j]))
CIdent(n, k) == MkMat(n, n, LAMBDA i, j : IF i = j THEN <<k, 0>> ELSE CZero)
CZeroMat(r, c) == MkMat(r, c, LAMBDA i, j : CZero)
CTrace(A) == CSumTo([i \in 1..Len(A) |-> A[i][i]], Len(A))
CMatEq(A, B) == Len(A) = Len(B) /\ \A i \in 1..Len(A) :
                   Len(A[i]) = Len(B[i]) /\ \A j \in 1..Len(A[i]) :
                       A[i][j][1] = B[i][j][1] /\ A[i][j][2] = B[i][j][2]

IMatMul(A, B) == LET m == Len(B) IN
    MkMat(Len(A), Cols(B), LAMBDA i, j : SumTo([k \in 1..m |-> A[i][k] * B[k][j]], m))
ITransp(A) == MkMat(Cols(A), Len(A), LAMBDA i, j : A[j][i])
IMatEq(A, B) == Len(A) = Len(B) /\ \A i \in 1..Len(A) :
                   Len(A[i]) = Len(B[i]) /\ \A j \in 1..Len(A[i]) : A[i][j] = B[i][j]

\* determinant of a Gaussian-integer matrix, Laplace expansion (small n)
RECURSIVE CDetRec(_, _, _)
CDetRec(M, r, cs) ==      \* rows r.., remaining columns cs (ascending sequence)
    IF cs = << >> THEN COne
    ELSE CSumTo([k \in 1..Len(cs) |->
            LET e == M[r][cs[k]] IN
            IF e[1] = 0 /\ e[2] = 0 THEN CZero
            ELSE LET rest == SubSeq(cs, 1, k - 1) \o SubSeq(cs, k + 1, Len(cs))
                     d == CMul(e, CDetRec(M, r + 1, rest))
                 IN IF k % 2 = 1 THEN d ELSE CNeg(d)], Len(cs))
CDet(M) == CDetRec(M, 1, [i \in 1..Len(M) |-> i])

\* --------------------------------------------------------------- fixed point
FXS == 16777216                                       \* 2^24
FMul(a, b) == LET ah == a \div 4096  al == a % 4096
                  bh == b \div 4096  bl == b % 4096
              IN ah * bh + ((ah * bl + al * bh + ((al * bl) \div 4096)) \div 4096)
FXC(x, y) == <<FMul(x[1], y[1]) - FMul(x[2], y[2]), FMul(x[1], y[2]) + FMul(x[2], y[1])>>
\* a real FX times a complex FX
FXRC(x, y) == <<FMul(x, y[1]), FMul(x, y[2])>>
FNear(x, y, tol) == Abs(x - y) <= tol
CNear(x, y, tol) == Abs(x[1] - y[1]) <= tol /\ Abs(x[2] - y[2]) <= tol
CMatNear(A, B, tol) == Len(A) = Len(B) /\ \A i \in 1..Len(A) :
                   Len(A[i]) = Len(B[i]) /\ \A j \in 1..Len(A[i]) : CNear(A[i][j], B[i][j], tol)

FMatMul(A, B) == LET m == Len(B) IN
    MkMat(Len(A), Cols(B),
          LAMBDA i, j : CSumTo([k \in 1..m |-> FXC(A[i][k], B[k][j])], m))
FIdent(n) == CIdent(n, FXS)

\* x / y for FX x, y with |x / y| < 128 (long division, 8 bits at a time)
FDivPos(x, y) ==
    LET q0 == x \div y            r0 == x % y
        q1 == (r0 * 16) \div y    r1 == (r0 * 16) % y
        q2 == (r1 * 16) \div y    r2 == (r1 * 16) % y
        q3 == (r2 * 16) \div y    r3 == (r2 * 16) % y
        q4 == (r3 * 16) \div y    r4 == (r3 * 16) % y
        q5 == (r4 * 16) \div y    r5 == (r4 * 16) % y
        q6 == (r5 * 16) \div y
    IN q0 * FXS + q1 * 1048576 + q2 * 65536 + q3 * 4096 + q4 * 256 + q5 * 16 + q6
\* requires |y| < 2^27
FDiv(x, y) == IF (x < 0) = (y < 0) THEN FDivPos(Abs(x), Abs(y)) ELSE -FDivPos(Abs(x), Abs(y))
\* FX value of the rational n / d   (|n/d| < 128, 0 < d < 2^27)
FRat(n, d) == FDiv(n, d)

\* square root of an FX value x >= 0 (x < 64): bitwise on the integer root of x * 2^24
RECURSIVE FSqrtStep(_, _, _)
FSqrtStep(x, r, bit) ==          \* invariant: FMul(r, r) <= x
    IF bit = 0 THEN r
    ELSE LET t == r + bit IN
         FSqrtStep(x, IF FMul(t, t) <= x THEN t ELSE r, bit \div 2)
FSqrt(x) == IF x <= 0 THEN 0 ELSE FSqrtStep(x, 0, 67108864)   \* result < 8

\* natural logarithm of an FX value x > 0, through log2 digit by digit
FLN2 == 11629080                                       \* ln 2 * 2^24
RECURSIVE FLog2Frac(_, _, _)
FLog2Frac(y, bit, acc) ==        \* 1 <= y < 2 (FX)
    IF bit = 0 THEN acc
    ELSE LET z == FMul(y, y) IN
         IF z >= 2 * FXS THEN FLog2Frac(z \div 2, bit \div 2, acc + bit)
         ELSE FLog2Frac(z, bit \div 2, acc)
RECURSIVE FNormLog(_, _)
FNormLog(x, e) == IF x >= 2 * FXS THEN FNormLog(x \div 2, e + 1)
                  ELSE IF x < FXS THEN FNormLog(x * 2, e - 1)
                  ELSE <<x, e>>
FLog2(x) == LET p == FNormLog(x, 0) IN
            p[2] * FXS + FLog2Frac(p[1], FXS \div 2, 0)     \* |log2 x| < 64
\* multiply an FX value |v| < 64 by an FX constant 0 <= c < 1
FMulC(v, c) == LET vh == v \div 4096  vl == v % 4096  ch == c \div 4096  cl == c % 4096
               IN vh * ch + ((vh * cl + vl * ch + ((vl * cl) \div 4096)) \div 4096)
FLn(x) == FMulC(FLog2(x), FLN2)
\* ln of a positive rational n/d with full relative precision
FLnRat(n, d) == FLn(FRat(n, d))

\* exp of an FX value in [-16, 4]: 2^k * Taylor
RECURSIVE FExpTaylor(_, _, _, _)
FExpTaylor(x, k, term, acc) ==
    IF k > 14 \/ term = 0 THEN acc
    ELSE LET t == FMul(term, x) \div k IN FExpTaylor(x, k + 1, t, acc + t)
RECURSIVE FExpSq(_, _)
FExpSq(v, k) == IF k = 0 THEN v ELSE FExpSq(FMul(v, v), k - 1)
FExp(x) ==      \* argument reduction by ln 2
    LET k == x \div FLN2            \* floor
        r == x - k * FLN2
        m == FExpTaylor(r, 1, FXS, FXS)
    IN IF k >= 0 THEN m * (2 ^ k) ELSE IF k < -26 THEN 0 ELSE m \div (2 ^ (-k))
=============================================================================
