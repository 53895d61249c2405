-------------------------------- MODULE Comb --------------------------------
(***************************************************************************)
(* Combinatorial matrix functions, by expansion along the first vertex or   *)
(* row (each perfect matching / permutation visited exactly once), over     *)
(* Gaussian integers.                                                       *)
(***************************************************************************)
EXTENDS Num
Drop(vs, k) == SubSeq(vs, 1, k - 1) \o SubSeq(vs, k + 1, Len(vs))
Tail1(vs) == SubSeq(vs, 2, Len(vs))
Iota(n) == [i \in 1..n |-> i]
IsZ(e) == e[1] = 0 /\ e[2] = 0
\* sum over matchings of the vertices vs, first vertex matched with the k-th of
\* the others; alt = the sign of the Pfaffian
RECURSIVE MatchSum(_, _, _)
MatchSum(A, vs, alt) ==
    IF vs = << >> THEN COne
    ELSE IF Len(vs) % 2 = 1 THEN CZero
    ELSE LET r == Tail1(vs) IN
         CSumTo([k \in 1..Len(r) |->
            LET e == A[vs[1]][r[k]] IN
            IF IsZ(e) THEN CZero
            ELSE LET t == CMul(e, MatchSum(A, Drop(r, k), alt)) IN
                 IF alt /\ k % 2 = 0 THEN CNeg(t) ELSE t], Len(r))
Pf(A) == MatchSum(A, Iota(Len(A)), TRUE)
Hf(A) == MatchSum(A, Iota(Len(A)), FALSE)
\* twice the antisymmetric / symmetric part
Anti2(A) == MkMat(Len(A), Len(A), LAMBDA i, j : CSub(A[i][j], A[j][i]))
Symm2(A) == MkMat(Len(A), Len(A), LAMBDA i, j : CAdd(A[i][j], A[j][i]))
\* permanent
RECURSIVE PermRec(_, _, _)
PermRec(M, r, cs) ==
    IF cs = << >> THEN COne
    ELSE CSumTo([k \in 1..Len(cs) |->
            IF IsZ(M[r][cs[k]]) THEN CZero ELSE CMul(M[r][cs[k]], PermRec(M, r + 1, Drop(cs, k)))], Len(cs))
Perm(M) == PermRec(M, 1, Iota(Len(M)))
\* inversions of a sequence of integers
Inversions(s) == Cardinality({p \in (1..Len(s)) \X (1..Len(s)) : p[1] < p[2] /\ s[p[1]] > s[p[2]]})
SgnOf(s) == IF Inversions(s) % 2 = 0 THEN 1 ELSE -1
\* row/column operations (same operation on rows and columns = congruence)
SwapIdx(n, i, j) == [k \in 1..n |-> IF k = i THEN j ELSE IF k = j THEN i ELSE k]
SwapRows(A, i, j) == LET p == SwapIdx(Len(A), i, j) IN MkMat(Len(A), Cols(A), LAMBDA r, c : A[p[r]][c])
SwapCols(A, i, j) == LET p == SwapIdx(Cols(A), i, j) IN MkMat(Len(A), Cols(A), LAMBDA r, c : A[r][p[c]])
AddRow(A, i, j, k) == MkMat(Len(A), Cols(A), LAMBDA r, c : IF r = j THEN CAdd(A[r][c], CMul(k, A[i][c])) ELSE A[r][c])
AddCol(A, i, j, k) == MkMat(Len(A), Cols(A), LAMBDA r, c : IF c = j THEN CAdd(A[r][c], CMul(k, A[r][i])) ELSE A[r][c])
MulRow(A, i, k) == MkMat(Len(A), Cols(A), LAMBDA r, c : IF r = i THEN CMul(k, A[r][c]) ELSE A[r][c])
MulCol(A, i, k) == MkMat(Len(A), Cols(A), LAMBDA r, c : IF c = i THEN CMul(k, A[r][c]) ELSE A[r][c])
Border2(A, w, s) ==       \* direct sum with [[0, w], [s w, 0]]
    LET n == Len(A) IN
    MkMat(n + 2, n + 2, LAMBDA r, c : IF r <= n /\ c <= n THEN A[r][c]
                                      ELSE IF r = n + 1 /\ c = n + 2 THEN w
                                      ELSE IF r = n + 2 /\ c = n + 1 THEN CScale(s, w) ELSE CZero)
=============================================================================
