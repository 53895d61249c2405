------------------------------- MODULE T_C16 --------------------------------
(* conformance of hf *)
EXTENDS TraceShell, Comb
MyInit == [A |-> << >>, val |-> COne]
Ok(ev) == IF ev.exc # "" THEN {"must_return"} ELSE IF ~ev.out.ok THEN {"result_is_one_number_on_the_lattice"} ELSE {}
Res(ev) == <<ev.out.m[1][1][1], ev.out.m[1][1][2]>>
Without(B, i, j) == MatchSum(B, SelectSeq(Iota(Len(B)), LAMBDA v : v # i /\ v # j), FALSE)
Bump(A, i, j, w) == MkMat(Len(A), Len(A), LAMBDA r, c : IF {r, c} = {i, j} THEN CAdd(A[r][c], w) ELSE A[r][c])
Apply(s, op) ==
    LET k == <<op[4], op[5]>>  i == op[2]  j == op[3] IN
    CASE op[1] = "start" -> [A |-> CZeroMat(i, i), val |-> IF i = 0 THEN COne ELSE CZero]
      [] op[1] = "edge"  -> [A |-> Bump(s.A, i, j, k),
                             val |-> IF Len(s.A) % 2 = 1 THEN CZero ELSE CAdd(s.val, CMul(k, Without(s.A, i, j)))]
      [] op[1] = "loop"  -> [A |-> Bump(s.A, i, i, k), val |-> s.val]
      [] op[1] = "swap"  -> [A |-> SwapCols(SwapRows(s.A, i, j), i, j), val |-> s.val]
      [] op[1] = "scale" -> [A |-> MulCol(MulRow(s.A, i, k), i, k), val |-> CMul(s.val, k)]
      [] op[1] = "grow"  -> [A |-> Border2(s.A, k, 1), val |-> CMul(s.val, k)]
MyStep(s, ev) ==
    IF ev.kind = "begin" THEN Stateless({}, MyInit)
    ELSE IF ev.kind = "step" THEN
        LET t == Apply(s, ev.op) IN
        [st |-> t, fails |-> IF Ok(ev) # {} THEN Ok(ev) ELSE
            Clause("input_is_the_model_matrix", CMatEq(t.A, ev.A))
            \cup Clause("hf_follows_graph_edits", Res(ev) = CScale(2 ^ (Len(t.A) \div 2), t.val))]
    ELSE Stateless(IF Ok(ev) # {} THEN Ok(ev)
                   ELSE Clause("hf_is_sum_over_matchings", Res(ev) = Hf(Symm2(ev.A))), s)
=============================================================================
