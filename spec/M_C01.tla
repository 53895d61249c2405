------------------------------- MODULE M_C01 --------------------------------
(***************************************************************************)
(* Exhaustive model of the Fock machine: all words of at most L ladder     *)
(* operators on n modes.  The invariants are the canonical anticommutation *)
(* relations, adjointness, the vacuum, number counting and completeness.   *)
(***************************************************************************)
EXTENDS Fock, Json
CONSTANTS N, L
VARIABLES s, start, word
vars == <<s, start, word>>

Init == /\ start \in 0..(Dim(N) - 1)
        /\ s = <<1, start>>
        /\ word = << >>
Apply(p) == /\ Len(word) < L
            /\ s[1] # 0
            /\ s' = Act(N, p, s)
            /\ word' = Append(word, p)
            /\ UNCHANGED start
Next == \E p \in 1..(2 * N) : Apply(p)

TypeOK == s[1] \in {-1, 0, 1} /\ s[2] \in 0..(Dim(N) - 1)

\* {alpha_i, alpha_j} = delta(j = adjoint of i) on every reachable vector
AddAmp(x, y, c) == Amp(x, c) + Amp(y, c)
CAR == s[1] # 0 =>
         \A i, j \in 1..(2 * N) :
            LET x == Act(N, i, Act(N, j, s))
                y == Act(N, j, Act(N, i, s))
            IN \A c \in 0..(Dim(N) - 1) :
                 AddAmp(x, y, c) = IF j = Adj(N, i) THEN Amp(s, c) ELSE 0

\* <c| alpha_p |b> = <b| alpha_{p^dagger} |c>
Adjoint == s[1] # 0 =>
         \A p \in 1..(2 * N) : LET t == Ladder(N, p, s[2]) IN
            t[1] # 0 => Ladder(N, Adj(N, p), t[2]) = <<t[1], s[2]>>

NumberCounts == s[1] # 0 =>
         \A k \in 0..(N - 1) :
            Act2(N, k + 1, N + k + 1, s[2]) =
               IF Occ(N, k, s[2]) = 1 THEN <<1, s[2]>> ELSE Dead

\* the particle number of a surviving word is start + creations - annihilations
Particles == s[1] # 0 =>
    PopCount(s[2]) = PopCount(start)
                     + Cardinality({i \in 1..Len(word) : IsCre(N, word[i])})
                     - Cardinality({i \in 1..Len(word) : ~IsCre(N, word[i])})

\* maximal surviving or just-killed words are the scenarios replayed on the code
Emit == (Len(word) = L \/ (s[1] = 0 /\ Len(word) > 0)) =>
          PrintT("SCEN " \o ToJson([n |-> N, start |-> start, word |-> word]))
=============================================================================
