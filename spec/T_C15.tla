------------------------------- MODULE T_C15 --------------------------------
(* conformance of pf and sgn.  Matrices arrive in units of 1/den; the recorded
   result is multiplied by (2 den)^m, m the number of matched pairs.          *)
EXTENDS TraceShell, Comb
MyInit == [A |-> << >>, val |-> COne]
Ok(ev) == IF ev.exc # "" THEN {"must_return"} ELSE IF ~ev.out.ok THEN {"result_is_one_number_on_the_lattice"} ELSE {}
Res(ev) == ev.out.m[1][1]
C2(v) == <<v[1], v[2]>>
Apply(s, op) ==
    LET k == <<op[4], op[5]>> IN
    CASE op[1] = "grow"  -> [A |-> Border2(s.A, k, -1), val |-> CMul(s.val, k)]
      [] op[1] = "swap"  -> [A |-> SwapCols(SwapRows(s.A, op[2], op[3]), op[2], op[3]), val |-> CNeg(s.val)]
      [] op[1] = "add"   -> [A |-> AddCol(AddRow(s.A, op[2], op[3], k), op[2], op[3], k), val |-> s.val]
      [] op[1] = "scale" -> [A |-> MulCol(MulRow(s.A, op[2], k), op[2], k), val |-> CMul(s.val, k)]
Pow2(k) == 2 ^ k
MyStep(s, ev) ==
    IF ev.kind = "begin" THEN Stateless({}, MyInit)
    ELSE IF ev.kind = "step" THEN
        LET t == Apply(s, ev.op) IN
        [st |-> t, fails |-> IF Ok(ev) # {} THEN Ok(ev) ELSE
            Clause("input_is_the_model_matrix", CMatEq(t.A, ev.A))
            \cup Clause("pf_follows_congruences", C2(Res(ev)) = CScale(Pow2(Len(t.A) \div 2), t.val))]
    ELSE IF ev.kind = "pf" THEN
        Stateless(IF Ok(ev) # {} THEN Ok(ev)
                  ELSE Clause("pf_is_signed_sum_over_matchings", C2(Res(ev)) = Pf(Anti2(ev.A))), s)
    ELSE Stateless(IF Ok(ev) # {} THEN Ok(ev)
                   ELSE Clause("sgn_is_inversion_parity", C2(Res(ev)) = <<SgnOf(ev.p), 0>>), s)
=============================================================================
