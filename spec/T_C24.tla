------------------------------- MODULE T_C24 --------------------------------
(* conformance of kron_plus and permutation_to_matrix *)
EXTENDS TraceShell, Tensor
MyInit == [S |-> << >>, c |-> 0]
EvSum(A, ca, B, cb, ev) ==
    IF ev.exc # "" THEN {"must_return"}
    ELSE IF ~ev.out.ok THEN {"direct_sum_shape_or_lattice"}
    ELSE Clause("block_diagonal", CMatEq(ev.out.m, DSum(A, B, ca, cb)))
         \cup Clause("complex_type_kept", ev.cplx => ev.out.cplx)
EvPerm(ev) ==
    IF ev.exc # "" THEN {"must_return"}
    ELSE IF ~IsPerm(ev.p) THEN Clause("non_permutation_refused", ev.out.none)
    ELSE IF ev.out.none \/ ~ev.out.ok THEN {"permutation_accepted"}
    ELSE Clause("permutation_matrix", CMatEq(ev.out.m, PermMat(ev.p)))
\* products of the matrices of p, of q and of their composition
EvPair(ev) ==
    IF ev.exc # "" THEN {"must_return"}
    ELSE IF ~ev.out.ok THEN {"permutation_accepted"}
    ELSE Clause("composition_is_product", CMatEq(ev.out.m, PermMat(After(ev.p, ev.q))))
MyStep(s, ev) ==
    CASE ev.kind = "begin" -> Stateless({}, [S |-> ev.A, c |-> ev.ca])
      [] ev.kind = "glue" ->
           [st |-> [S |-> DSum(s.S, ev.B, s.c, ev.cb), c |-> s.c + ev.cb], fails |-> EvSum(s.S, s.c, ev.B, ev.cb, ev)]
      [] ev.kind = "sum" -> Stateless(EvSum(ev.A, ev.ca, ev.B, ev.cb, ev), s)
      [] ev.kind = "perm" -> Stateless(EvPerm(ev), s)
      [] ev.kind = "pair" -> Stateless(EvPair(ev), s)
=============================================================================
