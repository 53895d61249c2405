-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Rounding, cleaning and decimal text.  A number is an integer m in units  *)
(* of 10^-q.  At a tie both neighbours are admissible.                      *)
(***************************************************************************)
EXTENDS Num
RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN 1 ELSE 10 * Pow10(k - 1)
\* the multiples of p nearest to m
Nearest(m, p) == LET f == p * (m \div p)  r == m - f IN
    IF 2 * r < p THEN {f} ELSE IF 2 * r > p THEN {f + p} ELSE {f, f + p}
CRound(z, p) == Nearest(z[1], p) \X Nearest(z[2], p)
\* |z| < t
Below(z, t) == Abs(z[1]) < t /\ Abs(z[2]) < t /\ CAbs2(z) < t * t
\* the imaginary parts of a whole array are dropped when all are below t
DropsIm(vs, t) == \A k \in 1..Len(vs) : Abs(vs[k][2]) < t
\* what an entry may become: rounded to multiples of p, zero when then below t
Cleaned(z, p, t) == {IF Below(r, t) THEN CZero ELSE r : r \in CRound(z, p)}
Rounded(z, p) == CRound(z, p)
RealPart(z) == <<z[1], 0>>
\* ----------------------------------------------------------------- decimal text
RECURSIVE Zeros(_)
Zeros(k) == IF k <= 0 THEN "" ELSE "0" \o Zeros(k - 1)
RECURSIVE Digits(_)
Digits(m) == IF m < 10 THEN 1 ELSE 1 + Digits(m \div 10)
PadLeft(m, k) == IF k = 0 THEN "" ELSE Zeros(k - Digits(m)) \o ToString(m)
\* |u| 10^-e, already on that lattice, with prec >= e decimals
Decimals(u, e, prec) ==
    LET a == Abs(u)  P == Pow10(e)
        frac == PadLeft(a % P, e) \o Zeros(prec - e)
    IN ToString(a \div P) \o (IF prec = 0 THEN "" ELSE "." \o frac)
\* the texts u 10^-e may have when written with prec decimals
Fixed(u, e, prec) ==
    LET sign == IF u < 0 THEN "-" ELSE "" IN
    IF e - prec > 9 THEN {sign \o Decimals(0, prec, prec)}       \* |u| < 10^9 / 2
    ELSE IF prec >= e THEN {sign \o Decimals(u, e, prec)}
    ELSE {sign \o Decimals(r \div Pow10(e - prec), prec, prec) : r \in Nearest(Abs(u), Pow10(e - prec))}
\* |u| 10^-e >= 10^-10
Visible(u, e) == IF e <= 10 THEN u # 0 ELSE Abs(u) >= Pow10(e - 10)
=============================================================================
