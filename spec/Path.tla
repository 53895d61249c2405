-------------------------------- MODULE Path --------------------------------
(***************************************************************************)
(* Vectors, their orthonormal completions and paths between them.            *)
(* Vectors are Gaussian-integer directions; normalised ones fixed point.     *)
(***************************************************************************)
EXTENDS Prob
IP(u, v) == CSumTo([i \in 1..Len(u) |-> CMul(CConj(u[i]), v[i])], Len(u))
FIP(u, v) == CSumTo([i \in 1..Len(u) |-> FXC(CConj(u[i]), v[i])], Len(u))
FNorm2(u) == FIP(u, u)[1]
\* 4^s >= N2 > 4^(s-1)
RECURSIVE Half4(_, _)
Half4(k, s) == IF k <= 1 THEN s ELSE Half4((k + 3) \div 4, s + 1)
\* v / |v| for a nonzero Gaussian-integer vector
Unit(v) == LET n2 == Norm2(v)  s == Half4(n2, 0)
               r == FSqrt(FRat(n2, 4 ^ s))                          \* in (1/2, 1]
           IN TLCEval([i \in 1..Len(v) |-> <<FDiv(v[i][1] * (FXS \div (2 ^ s)), r), FDiv(v[i][2] * (FXS \div (2 ^ s)), r)>>])
IsZeroV(v) == \A i \in 1..Len(v) : v[i] = CZero
VNear(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : CNear(a[i], b[i], tol)
Col(B, j) == [i \in 1..Len(B) |-> B[i][j]]
\* (1 - t) a + t b, t = u / 16
Blend(a, b, u) == [i \in 1..Len(a) |-> <<(a[i][1] \div 16) * (16 - u) + (b[i][1] \div 16) * u, (a[i][2] \div 16) * (16 - u) + (b[i][2] \div 16) * u>>]
Opposite(w, v) == LET a == IP(w, v) IN a[2] = 0 /\ a[1] < 0 /\ \A i, j \in 1..Len(w) : CMul(w[i], v[j]) = CMul(w[j], v[i])
Parallel(w, v) == \A i, j \in 1..Len(w) : CMul(w[i], v[j]) = CMul(w[j], v[i])
=============================================================================
