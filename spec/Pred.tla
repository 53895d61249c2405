-------------------------------- MODULE Pred --------------------------------
(* Structural predicates on Gaussian-integer matrices (in units of 1/den). *)
EXTENDS Coef
Square(A) == \A i \in 1..Len(A) : Len(A[i]) = Len(A)
IsSymp(U, den) == LET n == Len(U) \div 2 IN
    CMatEq(CMatMul(CMatMul(U, SSwap(n, 1)), CTransp(U)), SSwap(n, den * den))
IsCanon(L) == /\ Len(L) % 2 = 0 /\ Square(L)
              /\ \A i, j \in 1..Len(L) :
                   /\ L[i][j][2] = 0 /\ L[i][j] = CNeg(L[j][i])
                   /\ ((i + 1) \div 2 # (j + 1) \div 2) => L[i][j] = CZero
Det2(a, b, c, d) == CSub(CMul(a, d), CMul(b, c))
IsMatchgate(M) == /\ Len(M) = 4 /\ Square(M)
                  /\ Det2(M[1][1], M[1][4], M[4][1], M[4][4]) = Det2(M[2][2], M[2][3], M[3][2], M[3][3])
=============================================================================
