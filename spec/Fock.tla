-------------------------------- MODULE Fock --------------------------------
(***************************************************************************)
(* The Fock-space machine: n fermionic modes, a state is an occupation     *)
(* word (encoded as the index of the computational basis vector; mode 0 is *)
(* the most significant bit) together with a sign.  A ladder operator is a *)
(* partial, sign-carrying transition.                                      *)
(*                                                                         *)
(* Operators are numbered as the library does: for n modes, operator       *)
(* p in 1..n is the creation operator of mode p-1, operator n+p is the     *)
(* annihilation operator of mode p-1.                                      *)
(***************************************************************************)
EXTENDS Num

Dim(n) == 2 ^ n
Occ(n, k, b) == (b \div (2 ^ (n - 1 - k))) % 2
RECURSIVE PopCount(_)
PopCount(b) == IF b = 0 THEN 0 ELSE (b % 2) + PopCount(b \div 2)
\* (-1)^(number of particles in the modes before k)
JWSign(n, k, b) == IF PopCount(b \div (2 ^ (n - k))) % 2 = 0 THEN 1 ELSE -1

\* a transition is <<sign, basis index>>; sign 0 = the zero vector
Dead == <<0, 0>>
Cre(n, k, b) == IF Occ(n, k, b) = 0 THEN <<JWSign(n, k, b), b + 2 ^ (n - 1 - k)>> ELSE Dead
Ann(n, k, b) == IF Occ(n, k, b) = 1 THEN <<JWSign(n, k, b), b - 2 ^ (n - 1 - k)>> ELSE Dead

Mode(n, p) == IF p <= n THEN p - 1 ELSE p - n - 1
IsCre(n, p) == p <= n
Ladder(n, p, b) == IF p <= n THEN Cre(n, p - 1, b) ELSE Ann(n, p - n - 1, b)
\* the adjoint operator's number
Adj(n, p) == IF p <= n THEN p + n ELSE p - n
\* apply operator p to a signed state
Act(n, p, s) == IF s[1] = 0 THEN Dead
                ELSE LET t == Ladder(n, p, s[2]) IN
                     IF t[1] = 0 THEN Dead ELSE <<s[1] * t[1], t[2]>>
\* alpha_i alpha_j applied to basis vector b
Act2(n, i, j, b) == Act(n, i, Ladder(n, j, b))

\* amplitude of a signed state on basis vector c
Amp(s, c) == IF s[1] # 0 /\ s[2] = c THEN s[1] ELSE 0

\* dense matrix (integer entries as Gaussian integers, rows/cols 1..2^n) of
\* ladder operator p
LadderMat(n, p) ==
    TLCEval([r \in 1..Dim(n) |-> TLCEval([c \in 1..Dim(n) |->
        <<Amp(Ladder(n, p, c - 1), r - 1), 0>>])])

\* (sqrt 2) * Majorana operator j (1..2n) in the library's convention:
\*   gamma_j     = (a_j^+ + a_j) / sqrt 2           j = 1..n
\*   gamma_{n+j} = i (a_j^+ - a_j) / sqrt 2
\* as the list of its two transitions from b: <<coefficient, target>>
MajImage(n, j, b) ==
    LET k == IF j <= n THEN j - 1 ELSE j - n - 1
        s == JWSign(n, k, b)
        up == Occ(n, k, b) = 0
        t == IF up THEN b + 2 ^ (n - 1 - k) ELSE b - 2 ^ (n - 1 - k)
    IN IF j <= n THEN << <<s, 0>>, t >>
       ELSE IF up THEN << <<0, s>>, t >> ELSE << <<0, -s>>, t >>
=============================================================================
