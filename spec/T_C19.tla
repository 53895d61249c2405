------------------------------- MODULE T_C19 --------------------------------
(* conformance of pfo_algorithm and complete_face *)
EXTENDS TraceShell, Graph
MyInit == 0
EdgeSet(es) == {Und(es[k][1], es[k][2]) : k \in 1..Len(es)}
EvPfo(ev) ==
    IF ev.exc # "" THEN {"must_return"}
    ELSE IF ~ev.out.ok THEN {"result_is_integer_matrix_over_the_nodes"}
    ELSE LET P == ev.out.p  E == EdgeSet(ev.es)  n == ev.n IN
         Clause("signs_exactly_on_the_edges",
             \A i, j \in 1..n : Abs(P[i][j]) = (IF i # j /\ Und(i, j) \in E THEN 1 ELSE 0))
         \cup (LET D == DartsOf(E)
                   rot == [d \in D |-> LET r == ev.rot[CHOOSE k \in 1..Len(ev.rot) : ev.rot[k][1] = d[1] /\ ev.rot[k][2] = d[2]] IN r[3]]
                   FS == FaceList(rot, D)
                   on(f) == {f[k][1] : k \in 1..Len(f)}
                   even == {m \in 1..Len(FS) : FaceSign(P, FS[m]) # -1}
               IN Clause("every_face_but_the_outer_is_odd", Cardinality(even) <= 1 /\
                      \A m \in even : (\E k \in 1..Len(FS) : on(FS[k]) = Rng(ev.outer)) => on(FS[m]) = Rng(ev.outer)))
         \cup Clause("all_matchings_same_sign", Abs(Pf(Upper(P))[1]) = NMatchings(n, E))
\* before / after are matrices of <<re, im>>; a zero real part means unassigned
EvComplete(ev) ==
    LET B == ev.before  f == ev.face
        open == {Und(f[k][1], f[k][2]) : k \in {j \in 1..Len(f) : B[Min2(f[j][1], f[j][2])][Max2(f[j][1], f[j][2])][1] = 0}}
    IN IF ev.exc # "" THEN {"must_return"}
       ELSE IF open = {} THEN Clause("complete_face_with_nothing_to_do", ev.out.none /\ CMatEq(ev.out.arg, B))
       ELSE IF ~ev.out.ok THEN {"returns_the_matrix"}
       ELSE LET R == ev.out.m  e == CHOOSE x \in open : TRUE  u == e[1]  v == e[2] IN
            Clause("only_the_open_edge_changes",
                \A i, j \in 1..Len(B) : Und(i, j) = e \/ (R[i][j][1] = B[i][j][1] /\ R[i][j][2] = B[i][j][2]))
            \cup Clause("open_edge_gets_a_sign", R[u][v][1] \in {1, -1} /\ R[u][v][2] = 0
                                                /\ R[v][u][1] \in {1, -1} /\ R[v][u][2] = 0)
            \cup Clause("face_becomes_odd",
                 FaceSign([i \in 1..Len(B) |-> [j \in 1..Len(B) |-> R[i][j][1]]], f) = -1)
            \cup Clause("argument_updated_in_place", CMatEq(ev.out.arg, R))
MyStep(s, ev) == Stateless(IF ev.kind = "pfo" THEN EvPfo(ev) ELSE EvComplete(ev), s)
=============================================================================
