------------------------------- MODULE T_C23 --------------------------------
(* conformance of the partial traces: sessions that build a composite operator
   term by term next to the reduced operators, and single matrices *)
EXTENDS TraceShell, Tensor
MyInit == [a |-> 1, b |-> 1, ra |-> << >>, rb |-> << >>]
Got(o, want, name) == IF o.exc # "" THEN {name \o "_must_return"}
                      ELSE IF ~o.ok THEN {name \o "_off_lattice_or_shape"} ELSE Clause(name, CMatEq(o.m, want))
Both(ev, wa, wb) == Got(ev.out.last, wa, "second_factor_traced_out") \cup Got(ev.out.first, wb, "first_factor_traced_out")
DoAdd(s, ev) ==
    LET t == ev.op  v == t[5]
        ra == IF t[3] = t[4] THEN CMatAdd(s.ra, Unit(s.a, t[1], t[2], v)) ELSE s.ra
        rb == IF t[1] = t[2] THEN CMatAdd(s.rb, Unit(s.b, t[3], t[4], v)) ELSE s.rb
    IN [st |-> [s EXCEPT !.ra = ra, !.rb = rb], fails |-> Both(ev, ra, rb)]
MyStep(s, ev) ==
    CASE ev.kind = "begin" -> Stateless({}, [a |-> ev.a, b |-> ev.b, ra |-> CZeroMat(ev.a, ev.a), rb |-> CZeroMat(ev.b, ev.b)])
      [] ev.kind = "add" -> DoAdd(s, ev)
      [] ev.kind = "mat" -> Stateless(Both(ev, TraceLast(ev.M, ev.a), TraceFirst(ev.M, ev.b)), s)
      [] ev.kind = "chain" ->      \* both orders of tracing three factors a x b x c down to b
           Stateless(LET w == TraceLast(TraceFirst(ev.M, ev.b * ev.c), ev.b) IN
               Got(ev.out.last, w, "first_then_last") \cup Got(ev.out.first, w, "last_then_first"), s)
      [] ev.kind = "refuse" -> Stateless(Clause("indivisible_dimension_refused", ev.out.type = "AssertionError"), s)
=============================================================================
