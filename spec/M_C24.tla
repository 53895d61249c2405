------------------------------- MODULE M_C24 --------------------------------
(***************************************************************************)
(* Permutations composed of transpositions next to the product of their     *)
(* matrices, and direct sums of rectangular blocks.                          *)
(***************************************************************************)
EXTENDS Tensor, Json
CONSTANTS N, L
VARIABLES p, q, pm, blocks, ops
vars == <<p, q, pm, blocks, ops>>
Id(n) == [i \in 1..n |-> i - 1]
Swap(n, i, j) == [k \in 1..n |-> IF k = i THEN j - 1 ELSE IF k = j THEN i - 1 ELSE k - 1]
Init == \E n \in 1..N : p = Id(n) /\ q = Id(n) /\ pm = CIdent(n, 1) /\ blocks = << >> /\ ops = 0
\* p := swap after p; the other permutation q is rotated
Compose(i, j) == /\ ops < L /\ i < j
                 /\ p' = After(Swap(Len(p), i, j), p)
                 /\ pm' = CMatMul(PermMat(Swap(Len(p), i, j)), pm)
                 /\ q' = After(q, p') /\ ops' = ops + 1 /\ UNCHANGED blocks
Shapes == {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>}
Full(r, c, v) == MkMat(r, c, LAMBDA i, j : <<v + i, j - v>>)
Glue(r, c) == /\ Len(blocks) < 3 /\ ops = 0
              /\ blocks' = Append(blocks, Full(r, c, Len(blocks))) /\ UNCHANGED <<p, q, pm, ops>>
Next == \/ \E i, j \in 1..Len(p) : Compose(i, j)
        \/ \E s \in Shapes : Glue(s[1], s[2])
Valid == IsPerm(p) /\ IsPerm(q)
Product == CMatEq(pm, PermMat(p)) /\ CMatEq(CMatMul(PermMat(p), PermMat(q)), PermMat(After(p, q)))
Orthogonal == CMatEq(CMatMul(PermMat(p), CTransp(PermMat(p))), CIdent(Len(p), 1))
MovesBasis == \A k \in 1..Len(p) : CMatEq(CMatMul(PermMat(p), Ket(Len(p), k)), Ket(Len(p), p[k] + 1))
Sign == CDet(PermMat(p)) \in {<<1, 0>>, <<-1, 0>>} /\ CDet(CMatMul(pm, PermMat(q))) = CMul(CDet(pm), CDet(PermMat(q)))
SumOfPerms == CMatEq(DSum(PermMat(p), PermMat(q), Len(p), Len(q)), PermMat(Beside(p, q)))
D2(A, B) == DSum(A, B, Cols(A), Cols(B))
Assoc == Len(blocks) = 3 => CMatEq(D2(D2(blocks[1], blocks[2]), blocks[3]), D2(blocks[1], D2(blocks[2], blocks[3])))
Mixed == Len(blocks) >= 2 =>      \* (A + B)(A + B)^T = A A^T + B B^T
    LET A == blocks[1] B == blocks[2] IN
    CMatEq(CMatMul(D2(A, B), CTransp(D2(A, B))), D2(CMatMul(A, CTransp(A)), CMatMul(B, CTransp(B))))
Emit == ops = L => PrintT("SCEN " \o ToJson([p |-> p, q |-> q]))
=============================================================================
