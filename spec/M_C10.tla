------------------------------- MODULE M_C10 --------------------------------
(***************************************************************************)
(* Words in the generators of the group preserving S, and a final spoiling  *)
(* step that changes one entry.  The group is closed, so every unspoilt     *)
(* state satisfies the predicate; matchgate-ness is closed under products.  *)
(***************************************************************************)
EXTENDS Pred, Json
CONSTANTS N, L
VARIABLES U, spoilt, hist
vars == <<U, spoilt, hist>>
M == 2 * N
I == CIdent(M, 1)
\* generators: swap modes, exchange j and j+n, shear X (+) X^-T, skew translation
SwapModes(i, j) == MkMat(M, M, LAMBDA a, b :
    LET p(x) == IF x = i THEN j ELSE IF x = j THEN i
                ELSE IF x = i + N THEN j + N ELSE IF x = j + N THEN i + N ELSE x
    IN IF b = p(a) THEN COne ELSE CZero)
Flip(i) == MkMat(M, M, LAMBDA a, b :
    LET p(x) == IF x = i THEN i + N ELSE IF x = i + N THEN i ELSE x
    IN IF b = p(a) THEN COne ELSE CZero)
Shear(i, j, v) == [I EXCEPT ![i][j] = v, ![j + N][i + N] = CNeg(v)]
Trans(i, j, v) == [I EXCEPT ![i][j + N] = v, ![j][i + N] = CNeg(v)]
Phase(i, v) == [I EXCEPT ![i][i] = v, ![i + N][i + N] = CConj(v)]
Init == U = I /\ spoilt = FALSE /\ hist = 0
Mul(g) == U' = CMatMul(U, g) /\ spoilt' = FALSE /\ hist' = hist + 1
Next == /\ hist < L /\ ~spoilt
        /\ \/ \E i, j \in 1..N, v \in {<<1, 0>>, <<0, 1>>} : i < j /\
                (Mul(SwapModes(i, j)) \/ Mul(Shear(i, j, v)) \/ Mul(Shear(j, i, v)) \/ Mul(Trans(i, j, v)))
           \/ \E i \in 1..N : Mul(Flip(i)) \/ Mul(Phase(i, <<0, 1>>)) \/ Mul(Phase(i, <<-1, 0>>))
           \/ \E i, j \in 1..M, v \in {<<1, 0>>, <<0, -1>>} :
                U' = [U EXCEPT ![i][j] = CAdd(U[i][j], v)] /\ spoilt' = TRUE /\ hist' = hist + 1
Closed == ~spoilt => IsSymp(U, 1)
TransposeToo == ~spoilt => IsSymp(CTransp(U), 1)
Emit == (hist = L \/ spoilt) => PrintT("SCEN " \o ToJson([n |-> N, U |-> U]))
=============================================================================
