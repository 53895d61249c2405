------------------------------- MODULE T_C03 --------------------------------
(* conformance of pauli_matrices and generate_pauli_group *)
EXTENDS TraceShell, Pauli

ElemOK(n, e, op) ==
    /\ op.shape = <<2 ^ n, 2 ^ n>>
    /\ Len(op.nz) = 2 ^ n
    /\ {op.nz[k][2] : k \in 1..Len(op.nz)} = 0..(2 ^ n - 1)
    /\ \A k \in 1..Len(op.nz) :
         LET x == op.nz[k]  m == PImage(n, e, x[2])
         IN m[2] = x[1] /\ Unit4(m[1]) = <<x[3], x[4]>>
EvGroup(ev) ==
    IF ~ev.out.ok THEN {"pauli_exact"}
    ELSE IF Len(ev.out.ops) # ev.to - ev.from + 1 \/ ev.out.total # 4 ^ ev.n THEN {"four_to_the_n_elements"}
    ELSE Clause("lexicographic_pauli_strings",
                \A k \in 1..Len(ev.out.ops) : ElemOK(ev.n, ev.from + k - 1, ev.out.ops[k]))
EvSingle(ev) ==
    IF ~ev.out.ok THEN {"pauli_exact"}
    ELSE IF Len(ev.out.ops) # 3 THEN {"three_matrices"}
    ELSE Clause("single_qubit_matrices", \A k \in 1..3 : ElemOK(1, k, ev.out.ops[k]))
EvNames(ev) ==
    Clause("verbose_names", /\ Len(ev.out.lines) = 4 ^ ev.n
                            /\ \A e \in 1..Len(ev.out.lines) : ev.out.lines[e] = PName(ev.n, e - 1, 0))
\* which error a request must be refused with ("" = accepted)
Refusal(a) == IF a.type # "int" THEN "TypeError" ELSE IF a.val <= 0 THEN "ValueError" ELSE ""
EvRefuse(ev) == Clause("argument_validation", ev.out.raised = Refusal(ev.arg))
RECURSIVE PWalk(_, _, _, _, _)
PWalk(n, p, b, word, steps) ==
    IF word = << >> THEN TRUE
    ELSE LET m == PImage(n, Head(word), b)
             q == (p + m[1]) % 4
             z == Unit4(q)
         IN Head(steps) = << <<m[2], z[1], z[2]>> >> /\ PWalk(n, q, m[2], Tail(word), Tail(steps))
EvWalk(ev) == IF ~ev.out.ok THEN {"walk_result_is_exact"}
              ELSE IF Len(ev.out.steps) # Len(ev.word) THEN {"walk_length"}
              ELSE Clause("pauli_words_walk_the_machine",
                          PWalk(ev.n, 0, ev.start, ev.word, ev.out.steps))
Fails(ev) == IF ev.kind = "refuse" THEN EvRefuse(ev)
             ELSE IF ev.exc # "" THEN {"must_return"}
             ELSE CASE ev.kind = "group" -> EvGroup(ev)
                    [] ev.kind = "single" -> EvSingle(ev)
                    [] ev.kind = "names" -> EvNames(ev)
                    [] ev.kind = "walk" -> EvWalk(ev)
MyStep(s, ev) == Stateless(Fails(ev), s)
MyInit == 0
=============================================================================
