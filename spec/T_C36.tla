------------------------------- MODULE T_C36 --------------------------------
(* conformance of plot_planar_embedding and plot_graph_with_edge_weights: the figures on show are read back *)
EXTENDS TraceShell, Drawing
MyInit == 0
Tol == 12000           \* points are rounded: an eighth of a pixel
PairSet(s) == {<<s[k][1], s[k][2]>> : k \in 1..Len(s)}
Common(ev) ==
    Clause("figure_is_shown", ev.out.shown >= 1)
    \cup Clause("one_dot_per_node", Len(ev.out.dots) = ev.n /\ Cardinality(Rng(ev.out.dots)) = ev.n)
    \cup Clause("each_node_named_once", Same([k \in 1..Len(ev.out.names) |-> ev.out.names[k][1]], ev.names))
    \cup Clause("names_on_the_dots", {ev.out.names[k][2] : k \in 1..Len(ev.out.names)} = Rng(ev.out.dots))
    \cup Clause("title_given", ev.title # "" => ev.out.title = ev.title)
\* where node i is, going by its name
At(ev) == [i \in 1..ev.n |-> LET k == CHOOSE k \in 1..Len(ev.out.names) : ev.out.names[k][1] = ev.names[i] IN ev.out.names[k][2]]
Ends(at, ls) == [k \in 1..Len(ls) |-> <<NodeAt(at, ls[k][1]), NodeAt(at, ls[k][2])>>]
Unds(s) == [k \in 1..Len(s) |-> Und(s[k][1], s[k][2])]
EvPlane(ev) ==
    IF ev.exc # "" THEN {"must_return"} ELSE IF ~ev.out.ok THEN {"figure_can_be_read"}
    ELSE IF Common(ev) # {} THEN Common(ev)
    ELSE LET at == At(ev)  o == ev.out  ls == Unds(Ends(at, o.lines))
             L == o.lines
         IN Clause("one_line_per_edge", Same(ls, Unds(ev.es)))
            \cup Clause("edges_do_not_cross", \A j \in 1..Len(L) : \A k \in 1..(j - 1) : ~Crossing(L[j][1], L[j][2], L[k][1], L[k][2], Tol))
            \* the arrows follow the orientation: from the lesser node where the entry is negative
            \cup Clause("arrows_follow_the_orientation",
                  Same(Ends(at, o.redarrows), ev.orient) /\ o.redlines = << >> /\ o.arrows = << >>)
EvWeights(ev) ==
    IF ev.exc # "" THEN {"must_return"} ELSE IF ~ev.out.ok THEN {"figure_can_be_read"}
    ELSE IF Common(ev) # {} THEN Common(ev)
    ELSE LET at == At(ev)  o == ev.out  es == ev.entries  d == ev.directed
             edges == [k \in 1..Len(es) |-> <<es[k][1], es[k][2]>>]
             by(t, e) == LET u == at[e[1]]  v == at[e[2]]  p == <<t[2], t[3]>> IN
                 /\ t[1] = e[3]
                 /\ IF e[1] = e[2] THEN TRUE ELSE IF d THEN BesideArc(u, v, p) ELSE OnSeg(u, v, p, 3)
         IN (IF d THEN Clause("one_arrow_per_entry", Same(Ends(at, o.arrows), edges) /\ o.lines = << >>)
                  ELSE Clause("one_line_per_edge", Same(Unds(Ends(at, o.lines)), Unds(edges)) /\ o.arrows = << >>))
            \cup (IF d THEN Clause("matching_highlighted", Same(Ends(at, o.redarrows), ev.match) /\ o.redlines = << >>)
                  ELSE Clause("matching_highlighted", Same(Unds(Ends(at, o.redlines) \o Ends(at, o.redarrows)), Unds(ev.match))))
            \cup Clause("as_many_weights_as_edges", Len(o.texts) = Len(es))
            \cup Clause("each_edge_has_its_weight_beside_it", \A k \in 1..Len(es) : \E m \in 1..Len(o.texts) : by(o.texts[m], es[k]))
            \cup Clause("each_weight_is_of_an_edge_beside_it", \A m \in 1..Len(o.texts) : \E k \in 1..Len(es) : by(o.texts[m], es[k]))
MyStep(s, ev) == Stateless(IF ev.kind = "plane" THEN EvPlane(ev) ELSE EvWeights(ev), s)
=============================================================================
