------------------------------- MODULE T_C20 --------------------------------
(* conformance of faces and dual_graph_H *)
EXTENDS TraceShell, Graph
MyInit == 0
EdgeSet(es) == {Und(es[k][1], es[k][2]) : k \in 1..Len(es)}
RECURSIVE CatAll(_, _)
CatAll(fs, k) == IF k = 0 THEN << >> ELSE CatAll(fs, k - 1) \o fs[k]
Succ(f, k) == f[IF k = Len(f) THEN 1 ELSE k + 1]
EvFaces(ev) ==
    IF ev.exc # "" THEN {"must_return"}
    ELSE IF ~ev.out.ok THEN {"result_is_a_list_of_lists_of_edges"}
    ELSE LET E == EdgeSet(ev.es)  D == DartsOf(E)  F == ev.out.f
             all == CatAll(F, Len(F))
             V == {d[1] : d \in D}
             once == Len(all) = Cardinality(D) /\ Rng(all) = D
             chain == \A m \in 1..Len(F) : \A k \in 1..Len(F[m]) : F[m][k][2] = Succ(F[m], k)[1]
             on(m) == {F[m][k][1] : k \in 1..Len(F[m])} \cup {F[m][k][2] : k \in 1..Len(F[m])}
         IN Clause("outer_face_comes_last", Len(F) > 0 /\
                ((\E m \in 1..Len(F) : on(m) = Rng(ev.outer)) => on(Len(F)) = Rng(ev.outer)))
            \cup Clause("each_directed_edge_on_exactly_one_face", once)
            \cup Clause("faces_are_closed_walks", chain)
            \cup Clause("euler_formula", Cardinality(V) - Cardinality(E) + Len(F) = 2 * CompCount(V, E))
            \cup (IF ~once \/ ~chain THEN {} ELSE
                  LET pos == [d \in D |-> CHOOSE p \in {<<m, k>> : m \in 1..Len(F), k \in 1..Len(all)} :
                                   p[2] <= Len(F[p[1]]) /\ F[p[1]][p[2]] = <<d[1], d[2]>>]
                      nxt(d) == Succ(F[pos[d][1]], pos[d][2])
                  IN IF Len(ev.rot) > 0
                     THEN Clause("faces_follow_the_given_embedding",
                            \A k \in 1..Len(ev.rot) :          \* <<v, u, w>>: w is clockwise next to u at v
                               LET r == ev.rot[k]  x == nxt(<<r[2], r[1]>>) IN x[1] = r[1] /\ x[2] = r[3])
                     ELSE \* the induced rotation at every vertex is one cycle
                          Clause("faces_come_from_a_rotation_system",
                            \A v \in V :
                              LET nb == {d[2] : d \in {x \in D : x[1] = v}}
                                  rot(u) == nxt(<<u, v>>)[2]
                                  u0 == CHOOSE u \in nb : TRUE
                                  orb[k \in 1..Cardinality(nb)] == IF k = 1 THEN u0 ELSE rot(orb[k - 1])
                              IN {orb[k] : k \in 1..Cardinality(nb)} = nb /\ rot(orb[Cardinality(nb)]) = u0))
EvDual(ev) ==
    IF ev.exc # "" THEN {"must_return"}
    ELSE IF ~ev.out.ok THEN {"result_is_a_graph_on_face_numbers"}
    ELSE LET E == EdgeSet(ev.es)  T == EdgeSet(ev.tree)  F == ev.faces
             side(u, v) == CHOOSE m \in 1..Len(F) : \E k \in 1..Len(F[m]) : F[m][k][1] = u /\ F[m][k][2] = v
             want == {Und(side(e[1], e[2]), side(e[2], e[1])) : e \in E \ T}
             got == EdgeSet(ev.out.es)
         IN Clause("one_node_per_face", Rng(ev.out.nodes) = 1..Len(F))
            \cup Clause("edges_are_the_shared_edges_outside_T", got = want)
            \cup (IF ev.spanning THEN Clause("dual_is_a_tree", IsTreeOn(1..Len(F), got)) ELSE {})
MyStep(s, ev) == Stateless(IF ev.kind = "faces" THEN EvFaces(ev) ELSE EvDual(ev), s)
=============================================================================
