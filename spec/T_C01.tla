------------------------------- MODULE T_C01 --------------------------------
(* conformance of jordan_wigner_lowering / jordan_wigner_alphas: the nonzero
   entries of the returned matrices are exactly the transitions of the Fock
   machine, and products of returned matrices walk the machine. *)
EXTENDS TraceShell, Fock

\* out.ops : sequence of sparse matrices [shape, nz], nz = <<row, col, re, im>>*
\* with distinct (row, col)
OpOK(n, p, op) ==
    /\ op.shape = <<Dim(n), Dim(n)>>
    /\ Len(op.nz) = (IF n = 0 THEN 0 ELSE 2 ^ (n - 1))
    /\ \A q \in 1..Len(op.nz) :
         LET e == op.nz[q] IN <<e[3], e[1]>> = Ladder(n, p, e[2]) /\ e[4] = 0

EvOps(ev) ==
    LET n == ev.n
        expect == IF ev.fn = "lowering" THEN n ELSE 2 * n
        off == IF ev.fn = "lowering" THEN n ELSE 0
    IN IF ~ev.out.ok THEN {"result_is_exact_ladder_matrices"}
       ELSE IF Len(ev.out.ops) # expect THEN {"operator_count"}
       ELSE UNION {Clause(IF p + off <= n THEN "creation_transitions" ELSE "annihilation_transitions",
                          OpOK(n, p + off, ev.out.ops[p])) : p \in 1..expect}

\* a walk: start vector, word of operators applied one after another, with the
\* recorded sparse vector after each step
RECURSIVE WalkOK(_, _, _, _)
WalkOK(n, s, word, steps) ==
    IF word = << >> THEN TRUE
    ELSE LET t == Act(n, Head(word), s)
             rec == Head(steps)
         IN /\ IF t[1] = 0 THEN rec = << >>
               ELSE rec = << <<t[2], t[1], 0>> >>
            /\ WalkOK(n, t, Tail(word), Tail(steps))
EvWalk(ev) ==
    IF ~ev.out.ok THEN {"walk_result_is_exact"}
    ELSE IF Len(ev.out.steps) # Len(ev.word) THEN {"walk_length"}
    ELSE Clause("word_of_ladder_operators_walks_the_fock_machine",
                WalkOK(ev.n, <<1, ev.start>>, ev.word, ev.out.steps))

Fails(ev) == IF ev.exc # "" THEN {"must_return"}
             ELSE IF ev.kind = "ops" THEN EvOps(ev) ELSE EvWalk(ev)
MyStep(s, ev) == Stateless(Fails(ev), s)
MyInit == 0
=============================================================================
