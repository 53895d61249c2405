------------------------------- MODULE M_C15 --------------------------------
(***************************************************************************)
(* Skew matrices reached by congruences, with the Pfaffian they must have:  *)
(* exchanging two indices negates it, adding a multiple of one row and      *)
(* column to another keeps it, scaling one multiplies it, a direct sum      *)
(* multiplies it.  Starting from the empty matrix (Pfaffian 1).             *)
(***************************************************************************)
EXTENDS Comb, Json
CONSTANTS L, NMax
VARIABLES A, val, perm, log
vars == <<A, val, perm, log>>
Ks == {<<-1, 0>>, <<0, 1>>, <<2, 1>>}
Init == A = << >> /\ val = COne /\ perm = << >> /\ log = << >>
Grow(w) == /\ Len(A) + 2 <= NMax
           /\ A' = Border2(A, w, -1) /\ val' = CMul(val, w)
           /\ perm' = perm \o <<Len(A) + 1, Len(A) + 2>>
           /\ log' = Append(log, <<"grow", 0, 0, w[1], w[2]>>)
Swap(i, j) == /\ A' = SwapCols(SwapRows(A, i, j), i, j) /\ val' = CNeg(val)
              /\ perm' = [perm EXCEPT ![i] = perm[j], ![j] = perm[i]]
              /\ log' = Append(log, <<"swap", i, j, 0, 0>>)
AddRC(i, j, k) == /\ A' = AddCol(AddRow(A, i, j, k), i, j, k) /\ UNCHANGED <<val, perm>>
                  /\ log' = Append(log, <<"add", i, j, k[1], k[2]>>)
Scale(i, k) == /\ A' = MulCol(MulRow(A, i, k), i, k) /\ val' = CMul(val, k) /\ UNCHANGED perm
               /\ log' = Append(log, <<"scale", i, 0, k[1], k[2]>>)
Next == Len(log) < L /\
    \/ \E w \in Ks : Grow(w)
    \/ \E i, j \in 1..Len(A) : i < j /\ Swap(i, j)
    \/ \E i, j \in 1..Len(A), k \in Ks : i # j /\ AddRC(i, j, k)
    \/ \E i \in 1..Len(A), k \in Ks : Scale(i, k)
Skew == \A i, j \in 1..Len(A) : A[i][j] = CNeg(A[j][i])
PfTracked == Pf(A) = val
PfSquaredIsDet == CMul(val, val) = CDet(A)
\* the parity of inversions is the number of exchanges
SgnTracked == SgnOf(perm) = (IF Cardinality({k \in 1..Len(log) : log[k][1] = "swap"}) % 2 = 0 THEN 1 ELSE -1)
\* Pfaffian of a direct sum with an odd block vanishes: odd dimension
Emit == Len(log) = L => PrintT("SCEN " \o ToJson([ops |-> log]))
=============================================================================
