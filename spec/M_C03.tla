------------------------------- MODULE M_C03 --------------------------------
(* Exhaustive model of the Pauli machine: words of Pauli strings acting on
   basis vectors; the accumulated product tracks the machine. *)
EXTENDS Pauli, Json
CONSTANTS N, L
VARIABLES ph, b, start, acc, word    \* i^ph |b> = (word product) |start>; acc = <<phase, string>>
vars == <<ph, b, start, acc, word>>
NP == 4 ^ N
Init == start \in 0..(2 ^ N - 1) /\ b = start /\ ph = 0 /\ acc = <<0, 0>> /\ word = << >>
Apply(e) == /\ Len(word) < L
            /\ LET m == PImage(N, e, b) IN ph' = (ph + m[1]) % 4 /\ b' = m[2]
            /\ LET p == PMul(N, e, acc[2]) IN acc' = <<(acc[1] + p[1]) % 4, p[2]>>
            /\ word' = Append(word, e)
            /\ UNCHANGED start
Next == \E e \in 0..(NP - 1) : Apply(e)
\* the group law agrees with the action on vectors
Homomorphism == LET m == PImage(N, acc[2], start) IN <<(m[1] + acc[1]) % 4, m[2]>> = <<ph, b>>
Involution == \A e \in 0..(NP - 1) : PMul(N, e, e) = <<0, 0>>
CommuteOrAnti == \A e \in 0..(NP - 1) :
    LET x == PMul(N, e, acc[2])  y == PMul(N, acc[2], e)
    IN x[2] = y[2] /\ (x[1] - y[1]) % 2 = 0
\* distinct strings are trace orthogonal
Orthogonal == Len(word) = 1 => \A e \in 0..(NP - 1) :
    LET z == CSumTo([c \in 1..(2 ^ N) |->
                LET m == PImage(N, e, c - 1)  k == PImage(N, acc[2], m[2])
                IN IF k[2] = c - 1 THEN Unit4(m[1] + k[1]) ELSE CZero], 2 ^ N)
    IN z = IF e = acc[2] THEN <<2 ^ N, 0>> ELSE CZero
Emit == Len(word) = L => PrintT("SCEN " \o ToJson([n |-> N, start |-> start, word |-> word]))
=============================================================================
