------------------------------- MODULE Pauli --------------------------------
(***************************************************************************)
(* The Pauli machine: an n-qubit Pauli string (letters 0=I 1=X 2=Y 3=Z,     *)
(* leftmost letter acts on the most significant bit) takes a basis vector   *)
(* to i^phase times a basis vector.                                         *)
(***************************************************************************)
EXTENDS Num
\* letter q (0 = leftmost) of the e-th string in lexicographic order
Letter(n, e, q) == (e \div (4 ^ (n - 1 - q))) % 4
Bit(n, b, q) == (b \div (2 ^ (n - 1 - q))) % 2
LPhase(x, bit) == IF x = 2 THEN (IF bit = 0 THEN 1 ELSE 3)
                  ELSE IF x = 3 /\ bit = 1 THEN 2 ELSE 0
LFlip(x) == IF x = 1 \/ x = 2 THEN 1 ELSE 0
\* image of basis vector b: <<phase exponent mod 4, target>>
PImage(n, e, b) ==
    << SumTo([q \in 1..n |-> LPhase(Letter(n, e, q - 1), Bit(n, b, q - 1))], n) % 4,
       SumTo([q \in 1..n |->
           (IF (Bit(n, b, q - 1) + LFlip(Letter(n, e, q - 1))) % 2 = 1
            THEN 2 ^ (n - q) ELSE 0)], n) >>
Unit4(p) == CASE p % 4 = 0 -> <<1, 0>> [] p % 4 = 1 -> <<0, 1>>
              [] p % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>
\* Tr[rho P_e] for a matrix rho of Gaussian integers (1-based rows/cols)
PExpect(n, e, rho) ==
    CSumTo([c \in 1..(2 ^ n) |->
        LET m == PImage(n, e, c - 1) IN CMul(Unit4(m[1]), rho[c][m[2] + 1])], 2 ^ n)
\* single-letter product x*y = i^k z, as <<k, z>>
LMul(x, y) == IF x = 0 THEN <<0, y>> ELSE IF y = 0 THEN <<0, x>>
              ELSE IF x = y THEN <<0, 0>>
              ELSE IF <<x, y>> \in {<<1, 2>>, <<2, 3>>, <<3, 1>>} THEN <<1, 6 - x - y>>
              ELSE <<3, 6 - x - y>>
PMul(n, e, f) ==
    << SumTo([q \in 1..n |-> LMul(Letter(n, e, q - 1), Letter(n, f, q - 1))[1]], n) % 4,
       SumTo([q \in 1..n |-> LMul(Letter(n, e, q - 1), Letter(n, f, q - 1))[2] * (4 ^ (n - q))], n) >>
LetterName(x) == CASE x = 0 -> "I" [] x = 1 -> "X" [] x = 2 -> "Y" [] OTHER -> "Z"
RECURSIVE PName(_, _, _)
PName(n, e, q) == IF q = n THEN "" ELSE LetterName(Letter(n, e, q)) \o PName(n, e, q + 1)
=============================================================================
