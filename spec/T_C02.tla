------------------------------- MODULE T_C02 --------------------------------
(* conformance of jordan_wigner_majoranas, build_Omega, build_K and
   build_reordering_xx_to_xp.  Matrices arrive scaled to Gaussian integers:
   sqrt2 * gamma, sqrt2 * Omega, 2 * K. *)
EXTENDS TraceShell, Fock

MajOpOK(n, j, op) ==
    /\ op.shape = <<Dim(n), Dim(n)>>
    /\ Len(op.nz) = Dim(n)
    /\ {op.nz[q][2] : q \in 1..Len(op.nz)} = 0..(Dim(n) - 1)
    /\ \A q \in 1..Len(op.nz) :
         LET e == op.nz[q] IN << <<e[3], e[4]>>, e[1]>> = MajImage(n, j, e[2])
EvMaj(ev) ==
    LET n == ev.n IN
    IF ~ev.out.ok THEN {"majoranas_exact"}
    ELSE IF Len(ev.out.ops) # 2 * n THEN {"majorana_count"}
    ELSE UNION {Clause(IF j <= n THEN "position_majoranas" ELSE "momentum_majoranas",
                       MajOpOK(n, j, ev.out.ops[j])) : j \in 1..(2 * n)}

OmegaM(n) == MkMat(2 * n, 2 * n, LAMBDA i, j :
    IF i <= n THEN (IF j = i \/ j = n + i THEN <<1, 0>> ELSE CZero)
    ELSE IF j = i - n THEN <<0, 1>> ELSE IF j = i THEN <<0, -1>> ELSE CZero)
EvOmega(ev) == IF ~ev.out.ok THEN {"omega_exact"}
               ELSE Clause("omega_matrix", CMatEq(ev.out.m, OmegaM(ev.n)))

\* row vector [x1..xn p1..pn] * P = [x1 p1 x2 p2 ...]
EvReorder(ev) ==
    IF ~ev.out.ok THEN {"reordering_exact"}
    ELSE LET n == ev.n
             v == [i \in 1..(2 * n) |-> i]
             w == [j \in 1..(2 * n) |-> SumTo([i \in 1..(2 * n) |-> v[i] * ev.out.m[i][j][1]], 2 * n)]
         IN Clause("reordering_is_xx_to_xp",
               /\ \A j \in 1..(2 * n) : w[j] = (IF j % 2 = 1 THEN (j + 1) \div 2 ELSE n + j \div 2)
               /\ \A i, j \in 1..(2 * n) : ev.out.m[i][j] \in {<<0, 0>>, <<1, 0>>})

SymS(n, k) == MkMat(2 * n, 2 * n, LAMBDA i, j :
    IF j = i + n \/ i = j + n THEN <<k, 0>> ELSE CZero)
\* -i * canonical skew form for eigenvalues lam
MinusICan(n, lam) == MkMat(2 * n, 2 * n, LAMBDA i, j :
    IF i % 2 = 1 /\ j = i + 1 THEN <<0, lam[(i + 1) \div 2]>>
    ELSE IF i % 2 = 0 /\ j = i - 1 THEN <<0, -lam[i \div 2]>> ELSE CZero)
Std(n, lam, k) == MkMat(2 * n, 2 * n, LAMBDA i, j :
    IF i # j THEN CZero ELSE IF i <= n THEN <<-k * lam[i], 0>> ELSE <<k * lam[i - n], 0>>)
EvK(ev) ==
    IF ~ev.out.ok THEN {"K_exact"}
    ELSE LET n == ev.n
             K == TLCEval(ev.out.m)
             Om == OmegaM(n)
             KO == CMatMul(K, CDagger(Om))              \* 2 sqrt2 K Omega^dagger
             conj(lam) == CMatMul(CMatMul(KO, MinusICan(n, lam)), CDagger(KO))
             lams == {[k \in 1..n |-> k], [k \in 1..n |-> k * k]}
                     \cup {[k \in 1..n |-> IF k = q THEN 1 ELSE 0] : q \in 1..(IF n <= 3 THEN n ELSE 1)}
         IN Clause("K_unitary", CMatEq(CMatMul(K, CDagger(K)), CIdent(2 * n, 4)))
            \cup Clause("K_symplectic", CMatEq(CMatMul(CMatMul(K, SymS(n, 1)), CTransp(K)), SymS(n, 4)))
            \cup Clause("K_maps_canonical_to_standard",
                        \A lam \in lams : CMatEq(conj(lam), Std(n, lam, 8)))

\* walk of sqrt2 gamma's from a basis vector; every step is one phase and target
RECURSIVE MWalk(_, _, _, _, _)
MWalk(n, z, b, word, steps) ==
    IF word = << >> THEN TRUE
    ELSE LET m == MajImage(n, Head(word), b)
             z2 == CMul(m[1], z)
         IN /\ Head(steps) = << <<m[2], z2[1], z2[2]>> >>
            /\ MWalk(n, z2, m[2], Tail(word), Tail(steps))
EvWalk(ev) ==
    IF ~ev.out.ok THEN {"walk_result_is_exact"}
    ELSE IF Len(ev.out.steps) # Len(ev.word) THEN {"walk_length"}
    ELSE Clause("majorana_words_walk_the_machine",
                MWalk(ev.n, COne, ev.start, ev.word, ev.out.steps))

\* the recorded Omega maps [creation, annihilation] to the recorded Majoranas:
\* 2 gamma_j = sum_p (sqrt2 Omega)_jp alpha_p, evaluated on every basis vector
EvChain(ev) ==
    IF ~ev.out.ok \/ ~ev.out.omega.ok THEN {"chain_exact"}
    ELSE LET n == ev.n  O == ev.out.omega.m IN
         Clause("omega_times_ladder_equals_majorana",
           \A j \in 1..(2 * n) : \A q \in 1..Len(ev.out.ops[j].nz) :
              LET e == ev.out.ops[j].nz[q]
                  \* e[2] -> e[1] amplitude of sqrt2 gamma_j
                  tot == CSumTo([p \in 1..(2 * n) |->
                            CScale(Amp(Ladder(n, p, e[2]), e[1]), O[j][p])], 2 * n)
              IN tot = <<e[3], e[4]>>)

Fails(ev) == IF ev.exc # "" THEN {"must_return"}
             ELSE CASE ev.kind = "majoranas" -> EvMaj(ev)
                    [] ev.kind = "omega" -> EvOmega(ev)
                    [] ev.kind = "reorder" -> EvReorder(ev)
                    [] ev.kind = "K" -> EvK(ev)
                    [] ev.kind = "walk" -> EvWalk(ev)
                    [] ev.kind = "chain" -> EvChain(ev)
MyStep(s, ev) == Stateless(Fails(ev), s)
MyInit == 0
=============================================================================
