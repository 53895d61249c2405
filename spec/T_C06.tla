------------------------------- MODULE T_C06 --------------------------------
(* conformance of build_op *)
EXTENDS TraceShell, Ops, Coef
EvLift(ev) ==
    IF ~ev.out.ok THEN {"lift_result_exact"}
    ELSE LET E == Lift(ev.n, ev.R, ev.direct) IN
         Clause(IF ev.direct THEN "direct_lift" ELSE "lift_with_adjoint", CMatEq(ev.out.m, E))
         \cup Clause("hermitian_form_lifts_to_hermitian",
                     (~ev.direct /\ IsHerm(ev.R)) => CMatEq(ev.out.m, CDagger(ev.out.m)))
EvDense(ev) ==
    IF ~ev.out.ok THEN {"lift_result_exact"}
    ELSE Clause(IF ev.direct THEN "direct_lift" ELSE "lift_with_adjoint",
                CMatEq(ev.out.m, LiftDense(ev.R, ev.alphas, ev.direct)))
\* the lift of build_H(A,B) equals the direct lift of build_V(A,B)
EvPair(ev) ==
    IF ~ev.out.h.ok \/ ~ev.out.v.ok THEN {"lift_result_exact"}
    ELSE Clause("H_and_V_forms_lift_to_the_same_operator", CMatEq(ev.out.h.m, ev.out.v.m))
         \cup Clause("lift_with_adjoint", CMatEq(ev.out.h.m, Lift(ev.n, HForm(ev.n, ev.A, ev.B), FALSE)))
Fails(ev) == IF ev.exc # "" THEN {"must_return"}
             ELSE CASE ev.kind = "lift" -> EvLift(ev)
                    [] ev.kind = "dense" -> EvDense(ev)
                    [] ev.kind = "pair" -> EvPair(ev)
MyStep(s, ev) == Stateless(Fails(ev), s)
MyInit == 0
=============================================================================
