------------------------------- MODULE T_C31 --------------------------------
(* conformance of get_orthogonal_vectors, build_unitary_path, build_linear_path.
   A session opens several paths and asks them at several times u/16, in any
   order; the state keeps the answers, which have to fit together. *)
EXTENDS TraceShell, Path
MyInit == << >>
Tol == 200
Basis(v, o) ==
    IF o.exc # "" THEN {"must_return"}
    ELSE IF Len(v) < 2 THEN Clause("nothing_below_two_dimensions", o.size = 0)
    ELSE IF ~o.ok THEN {"square_matrix"}
    ELSE Clause("orthonormal", CMatNear(FMatMul(CDagger(o.m), o.m), FIdent(Len(v)), Tol))
         \cup (IF IsZeroV(v) THEN Clause("standard_basis_for_the_zero_vector", CMatNear(o.m, FIdent(Len(v)), 2))
               ELSE Clause("first_is_the_normalised_vector", VNear(Col(o.m, 1), Unit(v), Tol)))
\* one more sample <<u, x>> of a path p = [kind, w, v, got]
Sample(p, u, x) ==
    LET line == TLCEval(Blend(p.w, p.v, u)) IN
    Clause("unit_norm", Abs(FNorm2(x) - FXS) <= Tol)
    \cup (IF u = 0 THEN Clause("starts_at_w", VNear(x, p.w, Tol)) ELSE {})
    \cup (IF u = 16 THEN Clause("ends_at_v", VNear(x, p.v, Tol)) ELSE {})
    \cup (IF p.kind = "linear"
          THEN Clause("on_the_normalised_line", /\ FIP(line, x)[1] > 0 /\ Abs(FIP(line, x)[2]) <= Tol
                                               /\ \A i, j \in 1..Len(x) : i < j => CNear(FXC(x[i], line[j]), FXC(x[j], line[i]), Tol))
          ELSE Clause("one_parameter_group",
                 \A a, b \in DOMAIN p.got, c \in DOMAIN p.got \cup {u} :
                    LET g(k) == IF k = u THEN x ELSE p.got[k] IN
                    (b - a = u - c => CNear(FIP(p.got[a], p.got[b]), FIP(g(c), x), Tol))))
         \cup (IF u \in DOMAIN p.got THEN Clause("same_time_same_vector", VNear(p.got[u], x, 2)) ELSE {})
At(s, ev) ==
    IF ev.out.exc # "" THEN [st |-> s, fails |-> {"must_return"}]
    ELSE IF ~ev.out.ok THEN [st |-> s, fails |-> {"column_vector"}]
    ELSE LET p == s[ev.p]  x == Col(ev.out.m, 1)  got == [k \in DOMAIN p.got \cup {ev.u} |-> IF k = ev.u THEN x ELSE p.got[k]] IN
         [st |-> TLCEval([s EXCEPT ![ev.p] = [@ EXCEPT !.got = got]]), fails |-> Sample(p, ev.u, x)]
MyStep(s, ev) ==
    CASE ev.kind = "basis" -> Stateless(Basis(ev.v, ev.out), s)
      [] ev.kind = "open" ->
           IF ev.out.exc # "" THEN [st |-> Append(s, << >>), fails |-> {"path_must_be_built"}]
           ELSE Stateless({}, Append(s, [kind |-> ev.fn, w |-> Unit(ev.a), v |-> Unit(ev.b), got |-> [k \in {} |-> 0]]))
      [] ev.kind = "begin" -> Stateless({}, << >>)
      [] ev.kind = "at" -> At(s, ev)
=============================================================================
