------------------------------- MODULE T_C07 --------------------------------
(* conformance of compute_2corr_matrix, correlation_matrix, compute_cov_matrix *)
EXTENDS TraceShell, Ops
\* two-point value for operator slots i, j of the event (ladder or dense ops)
Two(ev, i, j) == IF ev.jw THEN Tr2(ev.n, ev.rho, i, j)
                 ELSE Tr2Dense(ev.rho, ev.alphas[i], ev.alphas[j])
TwoAdjR(ev, i, j) == IF ev.jw THEN Tr2(ev.n, ev.rho, i, Adj(ev.n, j))
                     ELSE Tr2Dense(ev.rho, ev.alphas[i], CDagger(ev.alphas[j]))
TwoAdjL(ev, i, j) == IF ev.jw THEN Tr2(ev.n, ev.rho, Adj(ev.n, i), j)
                     ELSE Tr2Dense(ev.rho, CDagger(ev.alphas[i]), ev.alphas[j])
Expected(ev) ==
    LET m == 2 * ev.n IN
    CASE ev.mode = "plain" -> MkMat(m, m, LAMBDA i, j : Two(ev, i, j))
      [] ev.mode = "pos" -> MkMat(m, m, LAMBDA i, j : TwoAdjR(ev, i, j))
      [] ev.mode = "neg" -> MkMat(m, m, LAMBDA i, j : TwoAdjL(ev, i, j))
      [] ev.mode = "cov" -> LET G == MkMat(m, m, LAMBDA i, j : Two(ev, i, j))
                            IN CMatSub(G, CTransp(G))
Fails(ev) ==
    IF ev.exc # "" THEN {"must_return"}
    ELSE IF ~ev.out.ok THEN {"correlator_exact"}
    ELSE Clause(CASE ev.mode = "plain" -> "gamma_is_trace_rho_ai_aj"
                  [] ev.mode = "pos" -> "P_is_trace_rho_ai_ajdagger"
                  [] ev.mode = "neg" -> "eta_is_trace_rho_aidagger_aj"
                  [] ev.mode = "cov" -> "covariance_is_commutator_expectation",
                CMatEq(ev.out.m, Expected(ev)))
MyStep(s, ev) == Stateless(Fails(ev), s)
MyInit == 0
=============================================================================
