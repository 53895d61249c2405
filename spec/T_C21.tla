------------------------------- MODULE T_C21 --------------------------------
(* conformance of matching enumeration, counting, tree depth, random planar
   graphs and the graph returned by the plotting helper *)
EXTENDS TraceShell, Graph
MyInit == 0
EdgeSet(es) == {Und(es[k][1], es[k][2]) : k \in 1..Len(es)}
EvBrute(ev) ==
    LET M == ev.out.ms  E == EdgeSet(ev.es) IN
    IF ~ev.out.ok THEN {"result_is_a_list_of_lists_of_edges"} ELSE
    Clause("each_matching_listed_once", Cardinality({EdgeSet(M[k]) : k \in 1..Len(M)}) = Len(M))
    \cup Clause("exactly_the_perfect_matchings", {EdgeSet(M[k]) : k \in 1..Len(M)} = Matchings(ev.n, E))
    \cup Clause("matchings_have_half_as_many_edges_as_nodes", \A k \in 1..Len(M) : 2 * Len(M[k]) = ev.n)
EvCount(ev) == IF ~ev.out.ok THEN {"result_is_a_whole_number"}
               ELSE Clause("count_is_the_number_of_matchings", ev.out.c = NMatchings(ev.n, EdgeSet(ev.es)))
EvDepth(ev) == IF ~ev.out.ok THEN {"result_is_a_whole_number"}
               ELSE Clause("depth_is_greatest_distance_from_first_node", ev.out.c = Depth(EdgeSet(ev.es), ev.root))
EvRandom(ev) ==
    IF ev.out.none THEN Clause("small_graphs_are_found", ev.n > 9)
    ELSE IF ~ev.out.ok THEN {"result_is_a_simple_graph_on_0_to_n-1"}
    ELSE LET E == EdgeSet(ev.out.es)  n == ev.n IN
         IF Rng(ev.out.nodes) # 1..n THEN {"nodes_are_0_to_n-1"} ELSE
         IF ~(\A e \in E : e[1] # e[2] /\ e[1] \in 1..n /\ e[2] \in 1..n) THEN {"edges_join_different_nodes"} ELSE
         IF ~Connected(1..n, E) THEN {"connected"} ELSE
         {}
         \* a plane embedding offered by the recorder
         \cup Clause("planar",
                LET D == DartsOf(E)
                    rot == [d \in D |-> LET S == {k \in 1..Len(ev.rot) : ev.rot[k][1] = d[1] /\ ev.rot[k][2] = d[2]} IN
                               IF S = {} THEN 0 ELSE ev.rot[CHOOSE k \in S : TRUE][3]]
                    cyc(v) == LET nb == {d[2] : d \in {x \in D : x[1] = v}}
                                  u0 == CHOOSE u \in nb : TRUE
                                  orb[k \in 1..Cardinality(nb)] == IF k = 1 THEN u0 ELSE rot[<<v, orb[k - 1]>>]
                              IN {orb[k] : k \in 1..Cardinality(nb)} = nb /\ rot[<<v, orb[Cardinality(nb)]>>] = u0
                IN n = 1 \/ (/\ \A d \in D : <<d[1], rot[d]>> \in D
                             /\ \A v \in 1..n : cyc(v)
                             /\ n - Cardinality(E) + Cardinality(FaceSets(rot, D)) = 2))
\* weights arrive in units of 1e-5 and are returned in units of 1e-4
Round10(x) == IF x >= 0 THEN (x + 5) \div 10 ELSE -((-x + 5) \div 10)
EvPlot(ev) ==
    IF ~ev.out.ok THEN {"result_is_a_weighted_graph"}
    ELSE LET A == ev.A  n == Len(A)
             sym == \A i, j \in 1..n : A[i][j] = A[j][i]
             want == {<<i, j, Round10(A[i][j])>> : i, j \in 1..n}
             keep == {t \in want : A[t[1]][t[2]] # 0 /\ (sym => t[1] < t[2])}
             got == {IF sym /\ t[1] > t[2] THEN <<t[2], t[1], t[3]>> ELSE <<t[1], t[2], t[3]>> : t \in Rng(ev.out.ws)}
         IN Clause("directed_exactly_when_asymmetric", ev.out.directed = ~sym)
            \cup Clause("one_node_per_row", Rng(ev.out.nodes) = 1..n)
            \cup Clause("edges_are_the_nonzero_entries_with_rounded_weights", got = keep /\ Len(ev.out.ws) = Cardinality(keep))
Fails(ev) == IF ev.kind = "refuse" THEN Clause("refused", ev.out.type = ev.want)
             ELSE IF ev.exc # "" THEN {"must_return"}
             ELSE CASE ev.kind = "brute" -> EvBrute(ev) [] ev.kind = "count" -> EvCount(ev)
                    [] ev.kind = "depth" -> EvDepth(ev) [] ev.kind = "random" -> EvRandom(ev)
                    [] ev.kind = "plot" -> EvPlot(ev)
MyStep(s, ev) == Stateless(Fails(ev), s)
=============================================================================
