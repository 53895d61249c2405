-------------------------------- MODULE Coef --------------------------------
(***************************************************************************)
(* Coefficient-matrix layouts of quadratic fermionic forms.                 *)
(***************************************************************************)
EXTENDS Num
Blocks(n, tl, tr, bl, br) == MkMat(2 * n, 2 * n, LAMBDA i, j :
    IF i <= n THEN (IF j <= n THEN tl[i][j] ELSE tr[i][j - n])
    ELSE IF j <= n THEN bl[i - n][j] ELSE br[i - n][j - n])
NegConj(A) == CMatNeg(CMatConj(A))
HForm(n, A, B) == Blocks(n, NegConj(A), B, NegConj(B), A)
VForm(n, A, Z) == Blocks(n, NegConj(Z), A, NegConj(A), Z)
SSwap(n, k) == MkMat(2 * n, 2 * n, LAMBDA i, j :
    IF j = i + n \/ i = j + n THEN <<k, 0>> ELSE CZero)
IsHerm(A) == CMatEq(A, CDagger(A))
IsSkew(A) == CMatEq(A, CMatNeg(CTransp(A)))
\* blocks of a 2n x 2n matrix
TL(n, H) == MkMat(n, n, LAMBDA i, j : H[i][j])
TR(n, H) == MkMat(n, n, LAMBDA i, j : H[i][j + n])
BL(n, H) == MkMat(n, n, LAMBDA i, j : H[i + n][j])
BR(n, H) == MkMat(n, n, LAMBDA i, j : H[i + n][j + n])
\* Kitaev chain on n sites: chemical potential mu, hopping t, pairing d
KitaevA(n, mu, t) == MkMat(n, n, LAMBDA i, j :
    IF i = j THEN <<-mu, 0>> ELSE IF Abs(i - j) = 1 THEN <<-t, 0>> ELSE CZero)
KitaevB(n, d) == MkMat(n, n, LAMBDA i, j :
    IF j = i + 1 THEN <<d, 0>> ELSE IF i = j + 1 THEN <<-d, 0>> ELSE CZero)
=============================================================================
