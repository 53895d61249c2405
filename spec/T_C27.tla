------------------------------- MODULE T_C27 --------------------------------
(* conformance of renyi_entropy and linear_entropy.  The argument is given as
   counts (a distribution c / total), a wavefunction (entries / its norm) or a
   density matrix (M / its trace) *)
EXTENDS TraceShell, Prob
MyInit == << >>
Counts(ev) == CASE ev.form = "dist" -> ev.c
                [] ev.form = "wave" -> [i \in 1..Len(ev.v) |-> CAbs2(ev.v[i])]
                [] ev.form = "mat" -> Pdf(ev.M)
EvRenyi(c, ev) ==
    UNION {LET r == ev.out[k] IN
           IF r.exc # "" THEN {"must_return"} ELSE IF ~r.ok THEN {"finite_real"}
           ELSE Clause(CASE r.u = 0 -> "hartley" [] r.u = 4096 -> "shannon" [] r.u = -1 -> "min_entropy" [] Abs(r.u - 4096) <= 128 -> "renyi_near_order_one" [] OTHER -> "renyi",
                       FNear(r.x, RenyiAt(c, SumSeq(c), r.u), RenyiTol(r.u))) : k \in 1..Len(ev.out)}
IsSquareNumber(k) == \E r \in 1..k : r * r = k
EvLinear(c, ev) ==
    IF ~IsSquareNumber(Len(c)) THEN Clause("length_not_a_square_refused", ev.out.exc = "AssertionError")
    ELSE IF ev.out.exc # "" THEN {"must_return"} ELSE IF ~ev.out.ok THEN {"finite_real"}
    ELSE LET d == SumSeq(c) IN
         Clause("one_minus_the_purity", FNear(ev.out.x, FXS - FRat(SumTo([i \in 1..Len(c) |-> c[i] * c[i]], Len(c)), d * d), 64))
MyStep(s, ev) ==
    CASE ev.kind = "begin" -> Stateless({}, [i \in 1..ev.n |-> 0])
      [] ev.kind = "fill" ->          \* one more count
           LET c == [s EXCEPT ![ev.i] = @ + 1] IN [st |-> c, fails |-> EvRenyi(c, ev)]
      [] ev.kind = "renyi" -> Stateless(EvRenyi(Counts(ev), ev), s)
      [] ev.kind = "linear" -> Stateless(EvLinear(Counts(ev), ev), s)
      [] ev.kind = "refuse" -> Stateless(Clause("not_a_distribution_refused", ev.out.type \in {"ValueError", "AssertionError"}), s)
=============================================================================
