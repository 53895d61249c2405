------------------------------- MODULE T_C28 --------------------------------
(* conformance of the classical distances; arguments as in T_C27, one on each side *)
EXTENDS TraceShell, Prob
MyInit == [c |-> << >>, e |-> << >>]
Counts(a) == CASE a.form = "dist" -> a.c
               [] a.form = "wave" -> [i \in 1..Len(a.v) |-> CAbs2(a.v[i])]
               [] a.form = "mat" -> Pdf(a.M)
\* results are [exc, inf, ok, x]
One(r, name, want, tol) == IF r.exc # "" THEN {name \o "_must_return"}
                           ELSE IF r.inf \/ ~r.ok THEN {name \o "_finite_real"} ELSE Clause(name, FNear(r.x, want, tol))
Judge(c, e, o) ==
    LET d == SumSeq(c)  f == SumSeq(e) IN
    One(o.tv, "total_variation", FRat(TV2(c, d, e, f), 2 * d * f), 64)
    \cup One(o.bc, "bhattacharyya", Bhatta(c, d, e, f), 600)
    \cup One(o.js, "jensen_shannon", JS(c, d, e, f), 600)
    \cup (IF Inside(c, e) THEN One(o.kl, "kullback_leibler", KL(c, d, e, f), 600)
          ELSE IF o.kl.exc # "" THEN {"kullback_leibler_must_return"} ELSE Clause("infinite_outside_the_support", o.kl.inf))
MyStep(s, ev) ==
    CASE ev.kind = "begin" -> Stateless({}, [c |-> ev.c, e |-> [i \in 1..Len(ev.c) |-> 0]])
      [] ev.kind = "fill" -> LET e == [s.e EXCEPT ![ev.i] = @ + 1] IN [st |-> [s EXCEPT !.e = e], fails |-> Judge(s.c, e, ev.out)]
      [] ev.kind = "pair" -> Stateless(Judge(Counts(ev.p), Counts(ev.r), ev.out), s)
      [] ev.kind = "refuse" -> Stateless(Clause("not_a_distribution_refused", ev.out.type \in {"ValueError", "AssertionError"}), s)
=============================================================================
