-------------------------------- MODULE Ops ---------------------------------
(***************************************************************************)
(* Lists of operators (dense Gaussian-integer matrices) and what the        *)
(* library does with them: rotation by a coefficient matrix, the matrix of  *)
(* anticommutators, the lift of a quadratic form, two-point functions.      *)
(***************************************************************************)
EXTENDS Fock

JWAlphas(n) == TLCEval([p \in 1..(2 * n) |-> LadderMat(n, p)])

\* beta_j = sum_i C_ji alpha_i
Rotate(C, al) ==
    LET m == Len(al)  r == Len(al[1])  c == Len(al[1][1]) IN
    TLCEval([j \in 1..m |-> MkMat(r, c, LAMBDA a, b :
        CSumTo([i \in 1..m |-> IF C[j][i] = CZero \/ al[i][a][b] = CZero THEN CZero
                               ELSE CMul(C[j][i], al[i][a][b])], m))])
\* beta_j = sum_i conj(C_ij) alpha_i
RotateLeft(C, al) == Rotate(CDagger(C), al)

\* row 1 of {x, y}; every anticommutator here is a scalar multiple of 1
AntiComm11(x, y) ==
    LET d == Len(x) IN
    CSumTo([k \in 1..d |-> CAdd(CMul(x[1][k], y[k][1]), CMul(y[1][k], x[k][1]))], d)
AlgebraS(al) == MkMat(Len(al), Len(al), LAMBDA i, j : AntiComm11(al[i], al[j]))
FullAnti(x, y) == CMatAdd(CMatMul(x, y), CMatMul(y, x))

\* sum_ij R_ij alpha_i^dagger alpha_j  (direct: no adjoint) for dense operators
LiftDense(R, al, direct) ==
    LET m == Len(al)  d == Len(al[1])
        le == TLCEval([i \in 1..m |-> IF direct THEN al[i] ELSE CDagger(al[i])])
        \* right factors  Y_i = sum_j R_ij alpha_j
        ri == TLCEval([i \in 1..m |-> MkMat(d, d, LAMBDA a, b :
                 CSumTo([j \in 1..m |-> IF R[i][j] = CZero \/ al[j][a][b] = CZero THEN CZero
                                        ELSE CMul(R[i][j], al[j][a][b])], m))])
        pr == TLCEval([i \in 1..m |-> CMatMul(le[i], ri[i])])
    IN MkMat(d, d, LAMBDA a, b : CSumTo([i \in 1..m |-> pr[i][a][b]], m))

\* column b of the lift of R over the n-mode ladder operators, by walking the
\* Fock machine: amplitude on basis vector c
LiftAmp(n, R, direct, b, c) ==
    CSumTo([i \in 1..(2 * n) |->
        CSumTo([j \in 1..(2 * n) |->
            IF R[i][j] = CZero THEN CZero
            ELSE CScale(Amp(Act2(n, IF direct THEN i ELSE Adj(n, i), j, b), c), R[i][j])], 2 * n)], 2 * n)

\* the sparse columns of the lift: a function from <<row, col>> pairs that
\* can be nonzero (0-based) to amplitudes
RECURSIVE AccCol(_, _, _, _, _, _)
AccCol(n, R, direct, b, q, acc) ==      \* q runs over the (2n)^2 pairs
    IF q = 4 * n * n THEN acc
    ELSE LET i == (q \div (2 * n)) + 1  j == (q % (2 * n)) + 1 IN
         IF R[i][j] = CZero THEN AccCol(n, R, direct, b, q + 1, acc)
         ELSE LET t == Act2(n, IF direct THEN i ELSE Adj(n, i), j, b) IN
              IF t[1] = 0 THEN AccCol(n, R, direct, b, q + 1, acc)
              ELSE AccCol(n, R, direct, b, q + 1,
                     TLCEval([acc EXCEPT ![t[2] + 1] = CAdd(acc[t[2] + 1], CScale(t[1], R[i][j]))]))
LiftCol(n, R, direct, b) ==
    AccCol(n, R, direct, b, 0, [c \in 1..Dim(n) |-> CZero])
LiftMatT(n, R, direct) ==      \* transposed: LiftMatT[b][c] = <c-1| R^ |b-1>
    TLCEval([b \in 1..Dim(n) |-> LiftCol(n, R, direct, b - 1)])
Lift(n, R, direct) == LET T == LiftMatT(n, R, direct) IN
    MkMat(Dim(n), Dim(n), LAMBDA r, c : T[c][r])

\* Tr[rho alpha_i alpha_j] for ladder operators: sum_b <b| rho ... > walked
Tr2(n, rho, i, j) ==
    CSumTo([b \in 1..Dim(n) |->
        LET t == Act2(n, i, j, b - 1) IN
        IF t[1] = 0 THEN CZero ELSE CScale(t[1], rho[b][t[2] + 1])], Dim(n))
\* note Tr[rho X] = sum_{b,c} rho[b][c] X[c][b];  X|b> = sign |c>
Tr2Dense(rho, x, y) ==
    LET d == Len(rho) IN
    CSumTo([a \in 1..d |-> CSumTo([b \in 1..d |->
        IF rho[a][b] = CZero THEN CZero ELSE
        CMul(rho[a][b], CSumTo([k \in 1..d |-> CMul(x[b][k], y[k][a])], d))], d)], d)
=============================================================================
