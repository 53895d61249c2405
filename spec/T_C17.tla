------------------------------- MODULE T_C17 --------------------------------
(* conformance of pt, dt and dt_eigen: matrices in units of 1/den, results
   multiplied by den^n *)
EXTENDS TraceShell, Comb
MyInit == [A |-> << >>, det |-> COne, per |-> COne]
Ok(o) == IF o.exc # "" THEN {"must_return"} ELSE IF ~o.ok THEN {"result_is_one_number_on_the_lattice"} ELSE {}
Val(o) == <<o.m[1][1][1], o.m[1][1][2]>>
Apply(s, op) ==
    LET k == <<op[4], op[5]>>  i == op[2]  j == op[3] IN
    CASE op[1] = "start" -> [A |-> CIdent(i, 1), det |-> COne, per |-> COne]
      [] op[1] = "rswap" -> [s EXCEPT !.A = SwapRows(s.A, i, j), !.det = CNeg(@)]
      [] op[1] = "cswap" -> [s EXCEPT !.A = SwapCols(s.A, i, j), !.det = CNeg(@)]
      [] op[1] = "radd"  -> [s EXCEPT !.A = AddRow(s.A, i, j, k), !.per = CAdd(@, CMul(k, Perm([s.A EXCEPT ![j] = s.A[i]])))]
      [] op[1] = "rmul"  -> [A |-> MulRow(s.A, i, k), det |-> CMul(k, s.det), per |-> CMul(k, s.per)]
      [] op[1] = "trans" -> [s EXCEPT !.A = CTransp(s.A)]
Judge(ev, det, per) ==
    LET D(f) == Ok(ev.out[f]) \cup (IF Ok(ev.out[f]) # {} THEN {} ELSE Clause(f \o "_is_determinant", Val(ev.out[f]) = det)) IN
    D("dt") \cup D("dt_eigen")
    \cup Ok(ev.out.pt) \cup (IF Ok(ev.out.pt) # {} THEN {} ELSE Clause("pt_is_permanent", Val(ev.out.pt) = per))
MyStep(s, ev) ==
    IF ev.kind = "begin" THEN Stateless({}, MyInit)
    ELSE IF ev.kind = "step" THEN
        LET t == Apply(s, ev.op) IN
        [st |-> t, fails |-> Clause("input_is_the_model_matrix", CMatEq(t.A, ev.A)) \cup Judge(ev, t.det, t.per)]
    ELSE IF ev.kind = "refuse" THEN Stateless(Clause("non_square_gives_none", ev.exc = "" /\ ev.out.none), s)
    ELSE Stateless(Judge(ev, CDet(ev.A), Perm(ev.A)), s)
=============================================================================
