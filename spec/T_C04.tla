------------------------------- MODULE T_C04 --------------------------------
(* conformance of rotate_operators and compute_algebra_S, including sessions
   of successive rotations whose operator list is the specification's state *)
EXTENDS TraceShell, Ops

OpsEq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : CMatEq(a[i], b[i])
RotOK(ev, al) == OpsEq(ev.out.ops, IF ev.left THEN RotateLeft(ev.C, al) ELSE Rotate(ev.C, al))
RotClause(ev) == IF ev.left THEN "left_rotation_uses_conjugate_transpose" ELSE "rotation_is_linear_combination"

\* one-shot rotation of explicitly recorded operators; `unit' scales C
EvRot(ev) == IF ~ev.out.ok THEN {"rotation_result_exact"}
             ELSE Clause(RotClause(ev), RotOK(ev, ev.alphas))
EvS(ev, al) == IF ~ev.out.ok THEN {"algebra_S_exact"}
               ELSE Clause("algebra_S_is_anticommutator_matrix",
                           CMatEq(ev.out.m, CMatScale(ev.unit, AlgebraS(al))))
\* the operators form an algebra when all anticommutators are multiples of 1
IsScalar(X) == \A i, j \in 1..Len(X) : X[i][j] = (IF i = j THEN X[1][1] ELSE CZero)
Algebraic(al) == \A i, j \in 1..Len(al) : IsScalar(TLCEval(FullAnti(al[i], al[j])))
EvReport(ev) == Clause("reports_other_anticommutators", ev.out.silent = Algebraic(ev.alphas))
MyInit == << >>
MyStep(s, ev) ==
    IF ev.kind = "begin" THEN [st |-> JWAlphas(ev.n), fails |-> {}]
    ELSE IF ev.exc # "" THEN [st |-> s, fails |-> {"must_return"}]
    ELSE IF ev.kind = "rot" THEN [st |-> s, fails |-> EvRot(ev)]
    ELSE IF ev.kind = "S" THEN [st |-> s, fails |-> EvS(ev, ev.alphas)]
    ELSE IF ev.kind = "report" THEN [st |-> s, fails |-> EvReport(ev)]
    ELSE IF ev.kind = "srot" THEN
        LET nx == IF ev.left THEN RotateLeft(ev.C, s) ELSE Rotate(ev.C, s) IN
        [st |-> nx,
         fails |-> IF ~ev.out.ok THEN {"rotation_result_exact"}
                   ELSE Clause(RotClause(ev), OpsEq(ev.out.ops, nx))]
    ELSE [st |-> s, fails |-> EvS(ev, s)]          \* "sS"
=============================================================================
