------------------------------- MODULE M_C17 --------------------------------
(***************************************************************************)
(* Square matrices reached by elementary operations from the identity, with *)
(* the determinant and permanent they must have.                            *)
(***************************************************************************)
EXTENDS Comb, Json
CONSTANTS L, NMax
VARIABLES A, det, per, log
vars == <<A, det, per, log>>
Ks == {<<-1, 0>>, <<1, 1>>}
Init == /\ A \in {CIdent(n, 1) : n \in 0..NMax} /\ det = COne /\ per = COne /\ log = <<<<"start", Len(A), 0, 0, 0>>>>
Row(B, j, r) == [B EXCEPT ![j] = r]
RSwap(i, j) == A' = SwapRows(A, i, j) /\ det' = CNeg(det) /\ UNCHANGED per /\ log' = Append(log, <<"rswap", i, j, 0, 0>>)
CSwap(i, j) == A' = SwapCols(A, i, j) /\ det' = CNeg(det) /\ UNCHANGED per /\ log' = Append(log, <<"cswap", i, j, 0, 0>>)
RAdd(i, j, k) == /\ A' = AddRow(A, i, j, k) /\ UNCHANGED det
                 /\ per' = CAdd(per, CMul(k, Perm(Row(A, j, A[i]))))       \* linear in row j
                 /\ log' = Append(log, <<"radd", i, j, k[1], k[2]>>)
RMul(i, k) == A' = MulRow(A, i, k) /\ det' = CMul(k, det) /\ per' = CMul(k, per) /\ log' = Append(log, <<"rmul", i, 0, k[1], k[2]>>)
Trans == A' = CTransp(A) /\ UNCHANGED <<det, per>> /\ log' = Append(log, <<"trans", 0, 0, 0, 0>>)
Next == Len(log) < L /\
    \/ \E i, j \in 1..Len(A) : i < j /\ (RSwap(i, j) \/ CSwap(i, j))
    \/ \E i, j \in 1..Len(A), k \in Ks : i # j /\ RAdd(i, j, k)
    \/ \E i \in 1..Len(A), k \in {CZero, <<0, 2>>} : RMul(i, k)
    \/ (Len(A) > 1 /\ Trans)
DetTracked == CDet(A) = det
PermTracked == Perm(A) = per
Emit == Len(log) = L => PrintT("SCEN " \o ToJson([ops |-> log]))
=============================================================================
