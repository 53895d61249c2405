------------------------------- MODULE Tensor -------------------------------
(***************************************************************************)
(* Tensor products, partial traces, direct sums, permutation matrices, on   *)
(* matrices of Gaussian integers.  A basis vector of H_a (x) H_b is the     *)
(* pair (i, k), numbered (i-1) b + k.                                        *)
(***************************************************************************)
EXTENDS Num
Kron(A, B) == LET p == Len(B)  q == Cols(B) IN
    MkMat(Len(A) * p, Cols(A) * q, LAMBDA r, c :
        CMul(A[((r - 1) \div p) + 1][((c - 1) \div q) + 1], B[((r - 1) % p) + 1][((c - 1) % q) + 1]))
\* trace out the second factor, leaving dimension a
TraceLast(M, a) == LET b == Len(M) \div a IN
    MkMat(a, a, LAMBDA i, j : CSumTo([k \in 1..b |-> M[(i - 1) * b + k][(j - 1) * b + k]], b))
\* trace out the first factor, leaving dimension b
TraceFirst(M, b) == LET a == Len(M) \div b IN
    MkMat(b, b, LAMBDA k, l : CSumTo([i \in 1..a |-> M[(i - 1) * b + k][(i - 1) * b + l]], a))
Unit(d, i, j, v) == MkMat(d, d, LAMBDA r, c : IF r = i /\ c = j THEN v ELSE CZero)
Ket(d, k) == MkMat(d, 1, LAMBDA r, c : IF r = k THEN COne ELSE CZero)
RECURSIVE SumMats(_, _)
SumMats(f, n) == IF n = 1 THEN f[1] ELSE CMatAdd(SumMats(f, n - 1), f[n])
\* the textbook reading: sum over k of (I (x) <k|) M (I (x) |k>)
TraceLastBraKet(M, a) == LET b == Len(M) \div a  I == CIdent(a, 1) IN
    SumMats([k \in 1..b |-> CMatMul(CMatMul(Kron(I, CTransp(Ket(b, k))), M), Kron(I, Ket(b, k)))], b)
TraceFirstBraKet(M, b) == LET a == Len(M) \div b  I == CIdent(b, 1) IN
    SumMats([k \in 1..a |-> CMatMul(CMatMul(Kron(CTransp(Ket(a, k)), I), M), Kron(Ket(a, k), I))], a)
\* ------------------------------------------------------------- direct sums
DSum(A, B, ca, cb) == LET ra == Len(A) IN
    MkMat(ra + Len(B), ca + cb, LAMBDA r, c :
        IF r <= ra /\ c <= ca THEN A[r][c]
        ELSE IF r > ra /\ c > ca THEN B[r - ra][c - ca] ELSE CZero)
\* ----------------------------------------------------- permutations (0-based)
IsPerm(p) == {p[i] : i \in 1..Len(p)} = 0..(Len(p) - 1)
PermMat(p) == MkMat(Len(p), Len(p), LAMBDA r, c : IF p[c] = r - 1 THEN COne ELSE CZero)
After(p, q) == [i \in 1..Len(q) |-> p[q[i] + 1]]           \* first q, then p
Beside(p, q) == [i \in 1..(Len(p) + Len(q)) |-> IF i <= Len(p) THEN p[i] ELSE q[i - Len(p)] + Len(p)]
=============================================================================
