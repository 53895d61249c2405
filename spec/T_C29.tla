------------------------------- MODULE T_C29 --------------------------------
(* conformance of trace_distance.  Arguments as in T_C27 (counts, wavefunction
   or matrix), one on each side.  The recorder offers an eigenbasis of the
   difference of the two states, which the specification verifies; the distance
   is half the sum of the moduli of its eigenvalues.  Where a closed form
   exists the result has to agree with it as well. *)
EXTENDS TraceShell, Prob
MyInit == << >>
Mat(a) == CASE a.form = "dist" -> Diagonal([i \in 1..Len(a.c) |-> <<a.c[i], 0>>])
            [] a.form = "wave" -> Outer(a.v)
            [] a.form = "mat" -> a.M
\* the fixed-point matrix of the state
State(a) == LET M == TLCEval(Mat(a)) t == CTrace(M)[1] IN
    MkMat(Len(M), Len(M), LAMBDA i, j : <<FRat(M[i][j][1], t), FRat(M[i][j][2], t)>>)
Columns(U, lam) == MkMat(Len(U), Len(U), LAMBDA i, j : FXRC(lam[j], U[i][j]))
Eigenbasis(X, U, lam, tol) ==
    /\ Len(U) = Len(X) /\ Len(lam) = Len(X)
    /\ CMatNear(FMatMul(CDagger(U), U), FIdent(Len(X)), tol)
    /\ CMatNear(FMatMul(X, U), Columns(U, lam), tol)
\* closed forms
PureForm(u, v) == LET o == CSumTo([i \in 1..Len(u) |-> CMul(CConj(u[i]), v[i])], Len(u)) IN
    FSqrt(FXS - FRat(CAbs2(o), Norm2(u) * Norm2(v)))
QubitForm(X) == LET a == (X[1][1][1] - X[2][2][1]) \div 2 IN
    FSqrt(FMul(a, a) + FMul(X[1][2][1], X[1][2][1]) + FMul(X[1][2][2], X[1][2][2]))
\* a square root near zero only resolves 2^-12
NearRoot(x, y) == FNear(FMul(x, x), FMul(y, y), 200) /\ FNear(x, y, 16384)
One(r) == r.exc = "" /\ r.ok
Judge(ev) ==
    IF \E r \in {ev.out.ab, ev.out.ba} : r.exc # "" THEN {"must_return"}
    ELSE IF ~ev.out.ab.ok \/ ~ev.out.ba.ok THEN {"finite_real"}
    ELSE LET x == ev.out.ab.x
             X == TLCEval(CMatSub(State(ev.p), State(ev.r)))
             n == Len(X)
             want == SumTo([i \in 1..n |-> Abs(ev.lam[i])], n) \div 2
         IN Clause("half_the_trace_norm", Assert(Eigenbasis(X, ev.U, ev.lam, 60 * n), <<"eigenbasis", ev.id>>) /\ FNear(x, want, 60 * n))
            \cup Clause("symmetric", FNear(x, ev.out.ba.x, 8))
            \cup Clause("between_0_and_1", x >= -8 /\ x <= FXS + 8)
            \cup (IF ev.p.form = "wave" /\ ev.r.form = "wave" THEN Clause("pure_states", NearRoot(x, PureForm(ev.p.v, ev.r.v))) ELSE {})
            \cup (IF n = 2 THEN Clause("qubits", NearRoot(x, QubitForm(X))) ELSE {})
            \cup (IF \A i, j \in 1..n : i # j => X[i][j] = CZero
                  THEN Clause("diagonal_states", FNear(x, SumTo([i \in 1..n |-> Abs(X[i][i][1])], n) \div 2, 60 * n)) ELSE {})
MyStep(s, ev) ==
    CASE ev.kind = "pair" -> Stateless(Judge(ev), s)
      [] ev.kind = "triple" ->        \* the distances of three states, both directions
           Stateless(LET o == ev.out IN
             IF \E i \in 1..3 : o[i].exc # "" THEN {"must_return"} ELSE IF \E i \in 1..3 : ~o[i].ok THEN {"finite_real"}
             ELSE Clause("triangle", o[1].x <= o[2].x + o[3].x + 30 /\ o[2].x <= o[1].x + o[3].x + 30 /\ o[3].x <= o[1].x + o[2].x + 30), s)
      [] ev.kind = "refuse" -> Stateless(Clause("not_a_state_refused", ev.out.type \in {"ValueError", "AssertionError"}), s)
=============================================================================
