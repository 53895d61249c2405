------------------------------- MODULE M_C02 --------------------------------
(***************************************************************************)
(* The Majorana machine: sqrt(2) * gamma_j maps a basis vector to a phase   *)
(* (power of i) times a basis vector.  Invariants: each is a Hermitian      *)
(* involution and distinct ones anticommute; the ladder operators recovered *)
(* through the inverse basis change are those of the Fock machine.          *)
(***************************************************************************)
EXTENDS Fock, Json
CONSTANTS N, L
VARIABLES ph, b, start, word      \* the vector i^ph |b>
vars == <<ph, b, start, word>>

\* power of i of a unit Gaussian integer
PhaseOf(z) == IF z = <<1, 0>> THEN 0 ELSE IF z = <<0, 1>> THEN 1
              ELSE IF z = <<-1, 0>> THEN 2 ELSE 3
Unit(p) == CASE p % 4 = 0 -> <<1, 0>> [] p % 4 = 1 -> <<0, 1>>
             [] p % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>
MStep(j, p, c) == LET m == MajImage(N, j, c) IN <<(p + PhaseOf(m[1])) % 4, m[2]>>

Init == start \in 0..(Dim(N) - 1) /\ b = start /\ ph = 0 /\ word = << >>
Apply(j) == /\ Len(word) < L
            /\ LET m == MStep(j, ph, b) IN ph' = m[1] /\ b' = m[2]
            /\ word' = Append(word, j)
            /\ UNCHANGED start
Next == \E j \in 1..(2 * N) : Apply(j)

Involution == \A j \in 1..(2 * N) :
    LET m == MStep(j, ph, b) IN MStep(j, m[1], m[2]) = <<ph, b>>
Anticommute == \A i, j \in 1..(2 * N) : i # j =>
    LET x == MStep(j, ph, b)  xx == MStep(i, x[1], x[2])
        y == MStep(i, ph, b)  yy == MStep(j, y[1], y[2])
    IN xx[2] = yy[2] /\ (xx[1] - yy[1]) % 4 = 2
\* 2 a_k = sqrt2 gamma_k + i sqrt2 gamma_{n+k} ;  2 a_k^+ = sqrt2 gamma_k - i sqrt2 gamma_{n+k}
Recover == \A k \in 1..N : \A c \in 0..(Dim(N) - 1) :
    LET x == MajImage(N, k, b)  y == MajImage(N, N + k, b)
        amp(m) == IF m[2] = c THEN m[1] ELSE CZero
        low == CAdd(amp(x), CI(amp(y)))
        up == CSub(amp(x), CI(amp(y)))
    IN low = <<2 * Amp(Ann(N, k - 1, b), c), 0>> /\ up = <<2 * Amp(Cre(N, k - 1, b), c), 0>>
Parity == PopCount(b) % 2 = (PopCount(start) + Len(word)) % 2
Emit == Len(word) = L => PrintT("SCEN " \o ToJson([n |-> N, start |-> start, word |-> word]))
=============================================================================
