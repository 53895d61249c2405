------------------------------- MODULE T_C30 --------------------------------
(* conformance of cov_distribution and FAF: circuit sessions and single states.
   States are integer vectors, counts or matrices, or fixed-point matrices. *)
EXTENDS TraceShell, Cov
MyInit == [n |-> 1, v |-> << >>]
Tol(n) == 200 * n
RECURSIVE FPow(_, _)
FPow(x, k) == IF k = 1 THEN x ELSE FMul(x, FPow(x, k - 1))
PowersOf(x) == [j \in 1..4 |-> SumTo([k \in 1..Len(x) |-> FPow(x[k], j)], Len(x))]
\* the distribution: values between 0 and 1 with the right power sums
Spectrum(n, M, den, small, pm, s) ==
    IF pm.exc # "" THEN {"distribution_must_return"}
    ELSE IF ~pm.ok THEN {"distribution_is_a_real_vector"}
    ELSE Clause("between_0_and_1", \A k \in 1..Len(pm.x) : pm.x[k] >= 0 /\ pm.x[k] <= FXS + 8)
         \cup Clause("at_most_one_per_site", Len(pm.x) <= n)
         \cup (IF small /\ Len(pm.x) <= n THEN Clause("one_per_nonzero_pair", Len(pm.x) = HalfRank(M)) ELSE {})
         \cup (IF Len(pm.x) <= n /\ \A k \in 1..Len(pm.x) : pm.x[k] >= 0 /\ pm.x[k] <= FXS + 8
               THEN LET P == PowersOf(pm.x) IN
                    Clause("squared_singular_values", \A j \in 1..4 : FNear(P[j], s[j], Tol(n)))
               ELSE {})
\* FAF of order u/16, u >= 16
OrderOf(n, pm, s, u) == IF u % 16 = 0 /\ u <= 64 THEN n * FXS - s[u \div 16]
    ELSE n * FXS - SumTo([k \in 1..Len(pm) |-> IF pm[k] <= 4 THEN 0 ELSE FExp(Scale16(FLn(pm[k]), u))], Len(pm))
Judge(n, M, den, small, o) ==
    LET G == Gram(CovFX(M, den))  s == PowerSums(G, G, 4)  wrong == Spectrum(n, M, den, small, o.pm, s) IN
    wrong \cup UNION {LET r == o.faf[k] IN
                    IF r.exc # "" THEN {"anti_flatness_must_return"} ELSE IF ~r.ok THEN {"anti_flatness_is_a_finite_real"}
                    ELSE IF wrong # {} /\ ~(r.u % 16 = 0 /\ r.u <= 64) THEN {}
                    ELSE Clause("anti_flatness", FNear(r.x, OrderOf(n, o.pm.x, s, r.u), 8 * Tol(n))) : k \in 1..Len(o.faf)}
JudgeM(n, M, den, o) == Judge(n, M, den, n <= 3 /\ den <= 300, o)
DoGate(s, ev) == LET v == TLCEval(DoOp(s.n, s.v, ev.g)) IN
    [st |-> [s EXCEPT !.v = v], fails |-> JudgeM(s.n, CovV(s.n, v), Norm2(v), ev.out)]
State(a) == CASE a.form = "dist" -> Diagonal([i \in 1..Len(a.c) |-> <<a.c[i], 0>>]) [] OTHER -> a.M
MyStep(s, ev) ==
    CASE ev.kind = "begin" -> Stateless({}, [n |-> ev.n, v |-> BasisVec(ev.n, ev.b)])
      [] ev.kind = "op" -> DoGate(s, ev)
      [] ev.kind = "state" ->
           Stateless(IF ev.p.form = "wave" THEN JudgeM(ev.n, CovV(ev.n, ev.p.v), Norm2(ev.p.v), ev.out)
                     ELSE LET R == TLCEval(State(ev.p))  M == Cov(ev.n, R) IN
                          JudgeM(ev.n, M, CTrace(R)[1], ev.out)
                          \cup (IF ev.p.form = "dist" /\ ev.out.pm.exc = "" /\ ev.out.pm.ok
                                THEN Clause("one_per_polarised_site",
                                       Len(ev.out.pm.x) = Cardinality({i \in 1..ev.n : M[i][ev.n + i] # 0})) ELSE {}), s)
      [] ev.kind = "fx" -> Stateless(Judge(ev.n, Cov(ev.n, ev.M), FXS, FALSE, ev.out), s)
      [] ev.kind = "refuse" -> Stateless(Clause("not_a_state_refused", ev.out.type \in {"ValueError", "AssertionError"}), s)
=============================================================================
