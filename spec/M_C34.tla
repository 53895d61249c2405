------------------------------- MODULE M_C34 --------------------------------
(***************************************************************************)
(* Normal modes.  A Hamiltonian with mode energies sig (sum of               *)
(* sig_k (2 n_k - 1)) is dressed by braids of Majorana operators.  The       *)
(* many-body operator K is conjugated by the braid; independently of it the  *)
(* coefficient matrix R2 (twice the H form) is conjugated by the orbital     *)
(* rotation, and the normal modes b are rotated along.  Every braid carries  *)
(* a factor 1/2 into K: K is kept as the integer matrix 2^k K.               *)
(* Loose = TRUE lets any rotation of the 2N ladder operators act (not only   *)
(* those which respect the pairing of a mode with its adjoint): refuted.     *)
(***************************************************************************)
EXTENDS Ops, Coef, Json
CONSTANTS N, L, EMax, Loose
VARIABLES sig, K, R2, O, k, hist
vars == <<sig, K, R2, O, k, hist>>
M == 2 * N
D == Dim(N)
MajMat(j) == MkMat(D, D, LAMBDA r, c : LET t == MajImage(N, j, c - 1) IN IF t[2] = r - 1 THEN t[1] ELSE CZero)
Maj == TLCEval([j \in 1..M |-> MajMat(j)])
Braid(i, j) == CMatAdd(CIdent(D, 1), CMatMul(Maj[i], Maj[j]))
\* V^-1 g V for V = (1 + g_i g_j)/sqrt2 :  g_i -> g_j, g_j -> -g_i
BraidO(i, j) == MkMat(M, M, LAMBDA a, b :
    IF a = i THEN (IF b = j THEN COne ELSE CZero)
    ELSE IF a = j THEN (IF b = i THEN <<-1, 0>> ELSE CZero)
    ELSE IF a = b THEN COne ELSE CZero)
\* sqrt2 * Omega: Majorana = Omega * ladder
Om == MkMat(M, M, LAMBDA i, j :
        IF i <= N THEN (IF j = i \/ j = i + N THEN COne ELSE CZero)
        ELSE IF j = i - N THEN <<0, 1>> ELSE IF j = i THEN <<0, -1>> ELSE CZero)
\* twice the orbital matrix in the ladder basis of a signed permutation of the Majoranas
Orb2(X) == CMatMul(CMatMul(CDagger(Om), X), Om)
Half(X) == MkMat(Len(X), Cols(X), LAMBDA i, j : <<X[i][j][1] \div 2, X[i][j][2] \div 2>>)
DiagH(s) == MkMat(M, M, LAMBDA i, j : IF i # j THEN CZero ELSE IF i <= N THEN <<-s[i], 0>> ELSE <<s[i - N], 0>>)
Number(p) == CMatMul(LadderMat(N, p), LadderMat(N, p + N))
\* sum of sig_k (n_k - n_k^): the first N ladder operators are the adjoints
Diag(s) == MkMat(D, D, LAMBDA r, c : IF r # c THEN CZero
    ELSE <<SumTo([p \in 1..N |-> IF Number(p)[r][r] = COne THEN s[p] ELSE -s[p]], N), 0>>)
Init == /\ sig \in [1..N -> 0..EMax] /\ \A i \in 1..(N - 1) : sig[i] >= sig[i + 1]
        /\ K = Diag(sig) /\ R2 = CMatScale(2, DiagH(sig)) /\ O = CIdent(M, 1) /\ k = 0 /\ hist = << >>
\* K' = V^dagger K V
Dress(i, j) ==
    LET V == Braid(i, j)  X == BraidO(i, j)
        C2 == Orb2(X) IN                                   \* 2 C,  V^-1 alpha V = C alpha
    /\ K' = Half(CMatMul(CMatMul(CDagger(V), K), V))
    /\ R2' = Half(Half(CMatMul(CMatMul(CDagger(C2), R2), C2)))
    /\ O' = CMatMul(O, X)
\* wrong: two ladder operators exchanged without their adjoints
Swap(i, j) ==
    LET P == MkMat(M, M, LAMBDA a, b : IF (a = i /\ b = j) \/ (a = j /\ b = i) \/ (a = b /\ a # i /\ a # j) THEN COne ELSE CZero) IN
    /\ R2' = CMatMul(CMatMul(CTransp(P), R2), P)
    /\ K' = Lift(N, Half(R2'), FALSE) /\ O' = O
Next == /\ k < L /\ k' = k + 1 /\ sig' = sig
        /\ \E i, j \in 1..M : /\ i < j /\ (IF Loose THEN Swap(i, j) ELSE Dress(i, j))
                              /\ hist' = Append(hist, <<i, j>>)
\* the dressed operator is the lift of the dressed coefficients
LiftFollows == LET l2 == Lift(N, R2, FALSE) IN CMatEq(l2, CMatScale(2, K))
\* 2 b_m = sum_i (2 C)_mi alpha_i: the normal modes
B2 == Rotate(Orb2(O), JWAlphas(N))
Canonical == LET b == B2 IN \A i, j \in 1..M :
    CMatEq(FullAnti(b[i], b[j]), CIdent(D, IF i = j + N \/ j = i + N THEN 4 ELSE 0))
AdjointPairs == LET b == B2 IN \A i \in 1..N : CMatEq(b[i], CDagger(b[i + N]))
\* [K, b_m^dagger] = 2 sig_m b_m^dagger, and K = sum sig_m (b_m^dagger b_m - b_m b_m^dagger)
Raises == LET b == B2 IN \A i \in 1..N :
    CMatEq(CMatSub(CMatMul(K, b[i]), CMatMul(b[i], K)), CMatScale(2 * sig[i], b[i]))
SumOfModes == LET b == B2
                  T(i) == CMatScale(sig[i], CMatSub(CMatMul(b[i], b[i + N]), CMatMul(b[i + N], b[i])))
              IN CMatEq(CMatScale(4, K), IF N = 1 THEN T(1) ELSE IF N = 2 THEN CMatAdd(T(1), T(2))
                                         ELSE CMatAdd(CMatAdd(T(1), T(2)), T(3)))
\* the spectrum is all sums of +-sig: moments
Sq == SumTo([i \in 1..N |-> sig[i] * sig[i]], N)
Q4 == SumTo([i \in 1..N |-> sig[i] * sig[i] * sig[i] * sig[i]], N)
Moments == LET k2 == CMatMul(K, K) IN
    /\ CTrace(K) = CZero
    /\ CTrace(k2) = <<D * Sq, 0>>
    /\ CTrace(CMatMul(k2, k2)) = <<D * (3 * Sq * Sq - 2 * Q4), 0>>
Emit == k = L => PrintT("SCEN " \o ToJson([n |-> N, sig |-> sig, R |-> R2]))
=============================================================================
