------------------------------- MODULE M_C16 --------------------------------
(***************************************************************************)
(* Weighted graphs built edge by edge, with the Hafnian they must have:     *)
(* adding weight w to the edge ij adds w times the Hafnian of the graph     *)
(* without i and j; renumbering and loops do not matter; scaling a vertex   *)
(* multiplies.                                                                *)
(***************************************************************************)
EXTENDS Comb, Json
CONSTANTS L, NMax
VARIABLES A, val, log
vars == <<A, val, log>>
Ks == {<<-1, 0>>, <<0, 1>>, <<2, 0>>}
Init == /\ A \in {CZeroMat(n, n) : n \in 0..NMax} /\ val = Hf(A) /\ log = <<<<"start", Len(A), 0, 0, 0>>>>
Without(B, i, j) == MatchSum(B, SelectSeq(Iota(Len(B)), LAMBDA v : v # i /\ v # j), FALSE)
Edge(i, j, w) == /\ A' = MkMat(Len(A), Len(A), LAMBDA r, c : IF {r, c} = {i, j} THEN CAdd(A[r][c], w) ELSE A[r][c])
                 /\ val' = (IF Len(A) % 2 = 1 THEN CZero ELSE CAdd(val, CMul(w, Without(A, i, j))))
                 /\ log' = Append(log, <<"edge", i, j, w[1], w[2]>>)
Loop(i, w) == /\ A' = MkMat(Len(A), Len(A), LAMBDA r, c : IF r = i /\ c = i THEN CAdd(A[r][c], w) ELSE A[r][c])
              /\ UNCHANGED val /\ log' = Append(log, <<"loop", i, 0, w[1], w[2]>>)
Swap(i, j) == /\ A' = SwapCols(SwapRows(A, i, j), i, j) /\ UNCHANGED val
              /\ log' = Append(log, <<"swap", i, j, 0, 0>>)
Scale(i, k) == /\ A' = MulCol(MulRow(A, i, k), i, k) /\ val' = CMul(val, k)
               /\ log' = Append(log, <<"scale", i, 0, k[1], k[2]>>)
Grow(w) == /\ Len(A) + 2 <= NMax /\ A' = Border2(A, w, 1) /\ val' = CMul(val, w)
           /\ log' = Append(log, <<"grow", 0, 0, w[1], w[2]>>)
Next == Len(log) < L /\
    \/ \E i, j \in 1..Len(A), w \in {<<1, 0>>, <<1, -1>>} : i < j /\ Edge(i, j, w)
    \/ \E i \in 1..Len(A) : Loop(i, <<3, 1>>)
    \/ \E i, j \in 1..Len(A) : i < j /\ Swap(i, j)
    \/ \E i \in 1..Len(A), k \in {<<0, 1>>, <<2, 0>>} : Scale(i, k)
    \/ \E w \in {<<2, 0>>} : Grow(w)
Symmetric == \A i, j \in 1..Len(A) : A[i][j] = A[j][i]
HfTracked == Hf(A) = val
OddVanishes == Len(A) % 2 = 1 => Hf(A) = CZero
Emit == Len(log) = L => PrintT("SCEN " \o ToJson([ops |-> log]))
=============================================================================
