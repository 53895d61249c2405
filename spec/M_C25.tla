------------------------------- MODULE M_C25 --------------------------------
(***************************************************************************)
(* An ensemble: unnormalised wavefunctions are mixed one by one into a      *)
(* density matrix (denominator: the sum of their squared norms).             *)
(***************************************************************************)
EXTENDS Prob, Json
CONSTANTS D, L, Entries
EntriesDef == {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<-1, 0>>}
EntriesDeep == {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<-1, 0>>, <<1, 1>>, <<2, 0>>, <<3, 4>>}
VARIABLES d, rho, den, pdf, hist
vars == <<d, rho, den, pdf, hist>>
Init == d \in 1..D /\ rho = CZeroMat(d, d) /\ den = 0 /\ pdf = [i \in 1..d |-> 0] /\ hist = << >>
Vecs == {v \in [1..d -> Entries] : Norm2(v) > 0}
Key(v) == SumTo([i \in 1..Len(v) |-> (v[i][1] * 10 + v[i][2] + 40) * (100 ^ (i - 1))], Len(v))
Mix(v) == /\ Len(hist) < L
          /\ IF hist = << >> THEN TRUE ELSE Key(v) >= Key(hist[Len(hist)])
          /\ rho' = CMatAdd(rho, Outer(v)) /\ den' = den + Norm2(v)
          /\ pdf' = [i \in 1..d |-> pdf[i] + CAbs2(v[i])]
          /\ hist' = Append(hist, v) /\ UNCHANGED d
Next == \E v \in Vecs : Mix(v)
AlwaysAState == den > 0 => IsState(rho, den)
DiagonalIsPdf == Pdf(rho) = pdf /\ SumTo(pdf, d) = den /\ \A i \in 1..d : pdf[i] >= 0
\* tr rho^2 <= 1, with equality exactly for a pure state (all vectors parallel)
Parallel(u, v) == \A i, j \in 1..d : CMul(u[i], v[j]) = CMul(u[j], v[i])
Pure == den > 0 => LET p == CTrace(CMatMul(rho, rho))[1] IN
    p <= den * den /\ (p = den * den) = (\A k \in 1..Len(hist) : Parallel(hist[1], hist[k]))
\* the cast of a wavefunction forgets its phase, and knows its norm
Phase == \A k \in 1..Len(hist) : LET v == hist[k] IN
    /\ CMatEq(Outer(v), Outer([i \in 1..d |-> CI(v[i])]))
    /\ \A s \in 1..3 : (Cast(v, s)[1] = "wave") = (Norm2(v) = s * s)
    /\ Cast(v, 1000)[1] = "refused"
\* a distribution is cast to its diagonal matrix (unless it is a basis vector, where both readings agree)
Dist == den > 0 => LET p == [i \in 1..d |-> <<pdf[i], 0>>]  c == Cast(p, den) IN
    /\ c[1] \in {"dist", "wave"}
    /\ \A i \in 1..d : c[2][i][i][1] * den = pdf[i] * c[3]
\* removing too much weight in some direction leaves no state
NotPSD == den > 0 => LET m == CMatSub(rho, CMatScale(d * den, CIdent(d, 1))) IN d > 1 => ~IsPSD(m)
Quadratic == \A k \in 1..Len(hist) : LET v == hist[k]  w == CMatMul(rho, MkMat(d, 1, LAMBDA i, j : v[i])) IN
    LET q == CSumTo([i \in 1..d |-> CMul(CConj(v[i]), w[i][1])], d) IN q[2] = 0 /\ q[1] >= CAbs2(<<Norm2(v), 0>>)
Emit == Len(hist) = L => PrintT("SCEN " \o ToJson([vs |-> hist]))
=============================================================================
