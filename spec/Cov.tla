-------------------------------- MODULE Cov ---------------------------------
(***************************************************************************)
(* Majorana covariance of a state: with g = sqrt2 gamma,                     *)
(*    M_ij = -i <g_i g_j>  (i # j),   M_ii = 0,                              *)
(* a real antisymmetric matrix whose singular values come in pairs.  States  *)
(* are Gaussian-integer vectors or matrices, up to a positive factor.        *)
(***************************************************************************)
EXTENDS Fock, Prob
\* g_i g_j |b> = coefficient |target>
MajPair(n, i, j, b) == LET s == MajImage(n, j, b)  t == MajImage(n, i, s[2]) IN <<CMul(t[1], s[1]), t[2]>>
\* tr(rho g_i g_j)
PairExpect(n, rho, i, j) == LET tab == TLCEval([x \in 1..Dim(n) |-> MajPair(n, i, j, x - 1)]) IN CSumTo([x \in 1..Dim(n) |-> CMul(tab[x][1], rho[x][tab[x][2] + 1])], Dim(n))
\* -i z
MinusI(z) == <<z[2], -z[1]>>
\* integer covariance times tr rho; only the upper half is computed
CovC(n, rho) == LET up == TLCEval([i \in 1..(2 * n) |-> TLCEval([j \in 1..(2 * n) |-> IF i < j THEN MinusI(PairExpect(n, rho, i, j)) ELSE CZero])]) IN up
CovReal(n, rho) == LET c == CovC(n, rho) IN \A i, j \in 1..(2 * n) : c[i][j][2] = 0
Cov(n, rho) == LET c == CovC(n, rho) IN
    TLCEval([i \in 1..(2 * n) |-> TLCEval([j \in 1..(2 * n) |-> IF i < j THEN c[i][j][1] ELSE IF j < i THEN -c[j][i][1] ELSE 0])])
\* the pairs of transitions, computed once for every n
PairTab(n) == TLCEval([i \in 1..(2 * n) |-> TLCEval([j \in 1..(2 * n) |-> TLCEval([x \in 1..Dim(n) |-> MajPair(n, i, j, x - 1)])])])
Tab1 == PairTab(1)
Tab2 == PairTab(2)
Tab3 == PairTab(3)
Tab4 == PairTab(4)
Tab(n) == CASE n = 1 -> Tab1 [] n = 2 -> Tab2 [] n = 3 -> Tab3 [] n = 4 -> Tab4 [] OTHER -> PairTab(n)
\* g_i g_j applied to a vector (the transition of basis vectors is an involution up to its coefficient)
MajApply(n, i, j, v) == LET t == Tab(n)[i][j] IN [x \in 1..Dim(n) |-> LET b == t[x][2] IN CMul(t[b + 1][1], v[b + 1])]
\* <v| g_i g_j |v>
PairExpectV(n, v, i, j) == LET t == Tab(n)[i][j] IN
    CSumTo([x \in 1..Dim(n) |-> IF v[x] = CZero \/ v[t[x][2] + 1] = CZero THEN CZero ELSE CMul(CConj(v[t[x][2] + 1]), CMul(t[x][1], v[x]))], Dim(n))
CovVC(n, v) == TLCEval([i \in 1..(2 * n) |-> TLCEval([j \in 1..(2 * n) |-> IF i < j THEN MinusI(PairExpectV(n, v, i, j)) ELSE CZero])])
CovV(n, v) == LET c == CovVC(n, v) IN
    TLCEval([i \in 1..(2 * n) |-> TLCEval([j \in 1..(2 * n) |-> IF i < j THEN c[i][j][1] ELSE IF j < i THEN -c[j][i][1] ELSE 0])])
VAdd(a, b) == [x \in 1..Len(a) |-> CAdd(a[x], b[x])]
VScale(k, a) == [x \in 1..Len(a) |-> CScale(k, a[x])]
AllDiv(v, k) == \A x \in 1..Len(v) : v[x][1] % k = 0 /\ v[x][2] % k = 0
VDiv(v, k) == [x \in 1..Len(v) |-> <<v[x][1] \div k, v[x][2] \div k>>]
Lower(v) == IF AllDiv(v, 2) THEN VDiv(v, 2) ELSE IF AllDiv(v, 5) THEN VDiv(v, 5) ELSE v
\* the operations of the circuit machine
\*   rot: (3 + 4 g_i g_j)/5     braid: (1 + g_i g_j)/sqrt2      Gaussian
\*   flip: g_1, a parity change   int: (-1)^(n_p n_q)   mix: a Hadamard on site p
OpRot(n, v, i, j) == Lower(VAdd(VScale(3, v), VScale(4, MajApply(n, i, j, v))))
OpBraid(n, v, i, j) == Lower(VAdd(v, MajApply(n, i, j, v)))
OpInt(n, v, p, q) == [x \in 1..Dim(n) |-> IF Occ(n, p - 1, x - 1) = 1 /\ Occ(n, q - 1, x - 1) = 1 THEN CNeg(v[x]) ELSE v[x]]
OpMix(n, v, p) == LET f(b) == IF Occ(n, p - 1, b) = 0 THEN b + 2 ^ (n - p) ELSE b - 2 ^ (n - p) IN
    Lower([x \in 1..Dim(n) |-> IF Occ(n, p - 1, x - 1) = 0 THEN CAdd(v[x], v[f(x - 1) + 1]) ELSE CSub(v[f(x - 1) + 1], v[x])])
DoOp(n, v, g) == CASE g[1] = "rot" -> OpRot(n, v, g[2], g[3]) [] g[1] = "braid" -> OpBraid(n, v, g[2], g[3])
                   [] g[1] = "int" -> OpInt(n, v, g[2], g[3]) [] g[1] = "mix" -> OpMix(n, v, g[2])
BasisVec(n, b) == [x \in 1..Dim(n) |-> IF x = b + 1 THEN COne ELSE CZero]
\* ---- power sums of the squared singular values (each counted once per pair), fixed point
RMatMul(A, B) == LET m == Len(B) IN [i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |-> SumTo([k \in 1..m |-> IF A[i][k] = 0 \/ B[k][j] = 0 THEN 0 ELSE FMul(A[i][k], B[k][j])], m)]]
RMat(A) == TLCEval([i \in 1..Len(A) |-> TLCEval(A[i])])
CovFX(M, den) == TLCEval([i \in 1..Len(M) |-> TLCEval([j \in 1..Len(M) |-> IF M[i][j] = 0 THEN 0 ELSE FRat(M[i][j], den)])])
\* M^T M
Gram(X) == TLCEval([i \in 1..Len(X) |-> TLCEval([j \in 1..Len(X) |-> SumTo([k \in 1..Len(X) |-> IF X[k][i] = 0 \/ X[k][j] = 0 THEN 0 ELSE FMul(X[k][i], X[k][j])], Len(X))])])
RTrace(A) == SumTo([i \in 1..Len(A) |-> A[i][i]], Len(A))
RECURSIVE PowerSums(_, _, _)
\* << tr G / 2, tr G^2 / 2, ... >> up to order k, given G and the current power P
PowerSums(G, P, k) == IF k = 1 THEN <<RTrace(P) \div 2>> ELSE <<RTrace(P) \div 2>> \o PowerSums(G, RMat(RMatMul(P, G)), k - 1)
\* ---- integer Pfaffian of the rows and columns in the sequence s
RECURSIVE PfOf(_, _)
PfOf(M, s) == IF Len(s) = 0 THEN 1
    ELSE SumTo([k \in 1..(Len(s) - 1) |->
        IF M[s[1]][s[k + 1]] = 0 THEN 0
        ELSE (IF k % 2 = 1 THEN 1 ELSE -1) * M[s[1]][s[k + 1]] * PfOf(M, SubSeq(s, 2, k) \o SubSeq(s, k + 2, Len(s)))], Len(s) - 1)
\* half the rank: the largest principal submatrix with a nonzero Pfaffian
HalfRank(M) == CHOOSE r \in 0..(Len(M) \div 2) :
    /\ (\E S \in SUBSET (1..Len(M)) : Cardinality(S) = 2 * r /\ PfOf(M, Members(S, 1, Len(M))) # 0)
    /\ \A q \in (r + 1)..(Len(M) \div 2) : \A S \in SUBSET (1..Len(M)) : Cardinality(S) = 2 * q => PfOf(M, Members(S, 1, Len(M))) = 0
=============================================================================
