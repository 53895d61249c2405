------------------------------- MODULE T_C05 --------------------------------
(* conformance of build_H, build_V, kitaev_chain, random_H_generator *)
EXTENDS TraceShell, Coef
Zero(n) == CZeroMat(n, n)
EvBuild(ev) ==
    IF ~ev.out.ok THEN {"layout_shape_and_values"}
    ELSE LET B == IF ev.hasB THEN ev.B ELSE Zero(ev.n) IN
         IF ev.fn = "build_H" THEN Clause("H_block_layout", CMatEq(ev.out.m, HForm(ev.n, ev.A, B)))
         ELSE Clause("V_block_layout", CMatEq(ev.out.m, VForm(ev.n, ev.A, B)))
EvKitaev(ev) ==
    IF ~ev.out.ok THEN {"kitaev_shape_and_values"}
    ELSE Clause("kitaev_layout",
           CMatEq(ev.out.m, HForm(ev.n, KitaevA(ev.n, ev.mu, ev.t), KitaevB(ev.n, ev.delta))))
\* random generators: Hermitian A, skew B, H layout, no pairing when N is fixed
EvRand(ev) ==
    IF ~ev.out.ok THEN {"random_generator_shape"}
    ELSE LET n == ev.n  H == ev.out.m  A == BR(n, H)  B == TR(n, H) IN
         Clause("random_generator_layout", CMatNear(H, HForm(n, A, B), 2))
         \cup Clause("random_generator_hermitian", CMatNear(H, CDagger(H), 2) /\ CMatNear(B, CMatNeg(CTransp(B)), 2))
         \cup Clause("fixed_N_has_no_pairing", ev.fixedN => CMatEq(B, Zero(n)))
         \cup Clause("random_generator_not_degenerate",
                     /\ \E i, j \in 1..n : A[i][j] # CZero
                     /\ (n > 1 /\ ~ev.fixedN) => (\E i, j \in 1..n : B[i][j] # CZero)
                     /\ n > 1 => \E i, j \in 1..n : A[i][j][2] # 0)
Fails(ev) == IF ev.exc # "" THEN {"must_return"}
             ELSE CASE ev.kind = "build" -> EvBuild(ev)
                    [] ev.kind = "kitaev" -> EvKitaev(ev)
                    [] ev.kind = "rand" -> EvRand(ev)
MyStep(s, ev) == Stateless(Fails(ev), s)
MyInit == 0
=============================================================================
