------------------------------- MODULE T_C32 --------------------------------
(* conformance of random_qubit_pure_state, random_qubit_state, random_CHP_state
   and generate_random_bitstring.  In a sampling session the state collects the
   different results; at its end every result the specification allows has to
   have occurred. *)
EXTENDS TraceShell, Tableau
MyInit == {}
Tol == 200
FNorm2V(x) == SumTo([i \in 1..Len(x) |-> FMul(x[i][1], x[i][1]) + FMul(x[i][2], x[i][2])], Len(x))
Vec(o) == [i \in 1..Len(o.m) |-> o.m[i][1]]
EvPure(ev) == IF ev.out.exc # "" THEN {"must_return"} ELSE IF ~ev.out.ok THEN {"column_of_2n"}
    ELSE Clause("unit_norm", Abs(FNorm2V(Vec(ev.out)) - FXS) <= Tol + 3 * Len(ev.out.m))
\* density matrix; the recorder offers an eigenbasis U, lam
Columns(U, lam) == MkMat(Len(U), Len(U), LAMBDA i, j : FXRC(lam[j], U[i][j]))
Eigenbasis(X, U, lam, tol) ==
    /\ CMatNear(FMatMul(CDagger(U), U), FIdent(Len(X)), tol)
    /\ CMatNear(FMatMul(X, U), Columns(U, lam), tol)
EvMixed(ev) == IF ev.out.exc # "" THEN {"must_return"} ELSE IF ~ev.out.ok THEN {"matrix_of_2n"}
    ELSE LET X == ev.out.m IN
         IF ~CMatNear(X, CDagger(X), 4) THEN {"hermitian"}
         ELSE Clause("trace_one", CNear(CTrace(X), <<FXS, 0>>, Tol))
              \cup Clause("positive", Assert(Eigenbasis(X, ev.U, ev.lam, 60 * Len(X)), <<"eigenbasis", ev.id>>) /\ \A i \in 1..Len(ev.lam) : ev.lam[i] >= -60)
\* stabilizer states, up to single precision
FExpect(n, e, x) == CSumTo([c \in 1..(2 ^ n) |-> LET m == PImage(n, e, c - 1) IN
    IF x[c] = CZero \/ x[m[2] + 1] = CZero THEN CZero ELSE CMul(Unit4(m[1]), FXC(CConj(x[m[2] + 1]), x[c]))], 2 ^ n)
Expects(n, x) == TLCEval([e \in 1..(4 ^ n) |-> FExpect(n, e - 1, x)])
GroupFX(n, E) == {<<e, Sgn(E[e + 1][1])>> : e \in {e \in 0..(4 ^ n - 1) : Abs(E[e + 1][1]) > FXS \div 2}}
EvChp(s, ev) == IF ev.out.exc # "" THEN [st |-> s, fails |-> {"must_return"}]
    ELSE IF ~ev.out.ok THEN [st |-> s, fails |-> {"column_of_2n"}]
    ELSE LET x == Vec(ev.out)  E == Expects(ev.n, x)  G == TLCEval(GroupFX(ev.n, E)) IN
         [st |-> s \cup {G},
          fails |-> Clause("unit_norm", Abs(FNorm2V(x) - FXS) <= 4 * Tol)
             \cup Clause("pauli_expectations_are_0_or_1", \A e \in 1..(4 ^ ev.n) : Abs(E[e][2]) <= 4 * Tol /\
                    (Abs(E[e][1]) <= 4 * Tol \/ Abs(Abs(E[e][1]) - FXS) <= 4 * Tol))
             \cup Clause("stabilizer_group", IsGroup(ev.n, G))]
\* bit strings
EvBits(s, ev) ==
    IF ev.k < 0 \/ ev.k > ev.n THEN Stateless(Clause("invalid_weight_gives_none", ev.out.exc = "" /\ ev.out.none), s)
    ELSE IF ev.out.exc # "" THEN [st |-> s, fails |-> {"must_return"}]
    ELSE IF ~ev.out.ok THEN [st |-> s, fails |-> {"integer_array"}]
    ELSE [st |-> IF "sess" \in DOMAIN ev THEN s \cup {ev.out.b} ELSE s,
          fails |-> Clause("n_bits", Len(ev.out.b) = ev.n /\ \A i \in 1..Len(ev.out.b) : ev.out.b[i] \in {0, 1})
             \cup Clause("k_ones", SumSeq(ev.out.b) = ev.k)]
RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)
MyStep(s, ev) ==
    CASE ev.kind = "pure" -> Stateless(EvPure(ev), s)
      [] ev.kind = "mixed" -> Stateless(EvMixed(ev), s)
      [] ev.kind = "begin" -> Stateless({}, {})
      [] ev.kind = "chp" -> EvChp(s, ev)
      [] ev.kind = "bits" -> EvBits(s, ev)
      [] ev.kind = "seen_chp" -> Stateless(Clause("every_stabilizer_state_occurs", Cardinality(s) = ev.out.n * StabCount(ev.n, ev.n)), s)
      [] ev.kind = "seen_bits" -> Stateless(Clause("every_string_occurs", Cardinality(s) = ev.out.n * Binom(ev.n, ev.k)), s)
      [] ev.kind = "refuse" -> Stateless(Clause(ev.fn, ev.out.type = (IF ev.arg = "int" THEN "ValueError" ELSE "TypeError")), s)
=============================================================================
