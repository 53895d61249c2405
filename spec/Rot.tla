-------------------------------- MODULE Rot ---------------------------------
(* Fixed-point relations between a many-body unitary W, its orbital         *)
(* rotation C and its generator G, over the ladder operators of n modes.    *)
EXTENDS Gauss
\* (alpha_p W)[r][c] : alpha_p moves <r| to the basis vector its adjoint reaches
LeftAct(n, p, W, r, c) == LET t == Ladder(n, Adj(n, p), r - 1) IN
    IF t[1] = 0 THEN CZero ELSE CScale(t[1], W[t[2] + 1][c])
\* (W alpha_p)[r][c]
RightAct(n, p, W, r, c) == LET t == Ladder(n, p, c - 1) IN
    IF t[1] = 0 THEN CZero ELSE CScale(t[1], W[r][t[2] + 1])
\* alpha_i W = W sum_j C_ij alpha_j
RotatesModes(n, W, C, tol) == \A i \in 1..(2 * n), r, c \in 1..Dim(n) :
    CNear(LeftAct(n, i, W, r, c),
          CSumTo([j \in 1..(2 * n) |-> FXC(C[i][j], RightAct(n, j, W, r, c))], 2 * n), tol)
\* [G, alpha_i] is linear in the ladder operators
Comm(n, G, i) == MkMat(Dim(n), Dim(n), LAMBDA r, c :
    CSub(RightAct(n, i, G, r, c), LeftAct(n, i, G, r, c)))
\* coefficient of alpha_j in X (a linear form): tr(alpha_j^dagger X) / 2^(n-1)
CoefOf(n, X, j) == LET d == Dim(n)
                       s == CSumTo([c \in 1..d |-> LET t == Ladder(n, j, c - 1) IN
                                IF t[1] = 0 THEN CZero ELSE CScale(t[1], X[t[2] + 1][c])], d)
                   IN <<s[1] \div (2 ^ (n - 1)), s[2] \div (2 ^ (n - 1))>>
Linear(n, X, tol) == LET co == TLCEval([j \in 1..(2 * n) |-> CoefOf(n, X, j)]) IN
    \A r, c \in 1..Dim(n) :
        CNear(X[r][c], CSumTo([j \in 1..(2 * n) |-> LET t == Ladder(n, j, c - 1) IN
                  IF t[1] # 0 /\ t[2] = r - 1 THEN CScale(t[1], co[j]) ELSE CZero], 2 * n), tol)
Quadratic(n, G, tol) == \A i \in 1..(2 * n) : Linear(n, Comm(n, G, i), tol)
ParityEven(n, W, tol) == \A r, c \in 1..Dim(n) :
    (PopCount(r - 1) + PopCount(c - 1)) % 2 = 1 => Abs(W[r][c][1]) <= tol /\ Abs(W[r][c][2]) <= tol
FUnitary(U, tol) == CMatNear(FMatMul(U, CDagger(U)), FIdent(Len(U)), tol)
SympS(n, C, tol) ==      \* C S C^T = S
    CMatNear(FMatMul(C, MkMat(2 * n, 2 * n, LAMBDA i, j : C[j][IF i <= n THEN i + n ELSE i - n])),
             SSwap(n, FXS), tol)
BlockForm(n, U, tol) == \A i, j \in 1..n : CNear(U[i + n][j + n], CConj(U[i][j]), tol)
                                        /\ CNear(U[i][j + n], CConj(U[i + n][j]), tol)
MinusI(G) == MkMat(Len(G), Len(G), LAMBDA i, j : <<G[i][j][2], -G[i][j][1]>>)
ExpMinusI(G) == MExp(MinusI(G))
=============================================================================
