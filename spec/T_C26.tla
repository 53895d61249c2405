------------------------------- MODULE T_C26 --------------------------------
(* conformance of stabilizer_distribution and SRE: circuit sessions and single states *)
EXTENDS TraceShell, Stab
MyInit == [n |-> 1, v |-> << >>]
\* every term of the sums over the 4^n Pauli operators is rounded
Tol(n, u) == (400 + 8 * 4 ^ n) * (IF u <= 0 \/ u = 16 THEN 1 ELSE 1 + 16 \div Abs(16 - u))
Judge(n, rho, o) ==
    LET w == Weights(n, rho)  t == WeightTotal(n, rho) IN
    (IF o.xi.exc # "" THEN {"distribution_must_return"}
     ELSE IF ~o.xi.ok THEN {"distribution_is_real_of_length_4n"}
     ELSE Clause("pauli_weights", \A e \in 1..(4 ^ n) : FNear(o.xi.x[e], FRat(w[e], t), 64)))
    \cup UNION {LET r == o.sre[k] IN
                IF r.exc # "" THEN {"entropy_must_return"}
                ELSE IF ~r.ok THEN {"entropy_is_a_finite_real"}
                ELSE Clause("stabilizer_entropy", FNear(r.x, SREof(n, w, t, r.u), Tol(n, r.u))) : k \in 1..Len(o.sre)}
DoGate(s, ev) == LET v == Apply(s.n, s.v, ev.g) IN
    [st |-> [s EXCEPT !.v = v], fails |-> Judge(s.n, Outer(v), ev.out)]
MyStep(s, ev) ==
    CASE ev.kind = "begin" -> Stateless({}, [n |-> ev.n, v |-> Start(ev.n)])
      [] ev.kind = "gate" -> DoGate(s, ev)
      [] ev.kind = "vec" -> Stateless(Judge(ev.n, Outer(ev.v), ev.out), s)
      [] ev.kind = "mat" -> Stateless(Judge(ev.n, ev.M, ev.out), s)
      [] ev.kind = "refuse" -> Stateless(Clause("not_a_state_refused", ev.out.type \in {"ValueError", "AssertionError"}), s)
=============================================================================
