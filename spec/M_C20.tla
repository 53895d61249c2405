------------------------------- MODULE M_C20 --------------------------------
(***************************************************************************)
(* Plane graphs grown edge by edge: a new vertex hung into a corner, or a   *)
(* chord drawn between two corners.  The corner after the dart <<u, v>>     *)
(* (clockwise at u) lies on the face of <<v, u>>; a chord inside one face   *)
(* splits it.  With ANY set, chords may join any two corners and leave the  *)
(* plane (Euler's formula fails, which TLC has to find).                    *)
(***************************************************************************)
EXTENDS Graph, Json
CONSTANTS NMax, EMax, ANY, JSONOUT
VARIABLES n, E, rot
vars == <<n, E, rot>>
Init == /\ n = 2 /\ E = {<<1, 2>>}
        /\ rot = [d \in {<<1, 2>>, <<2, 1>>} |-> IF d = <<1, 2>> THEN 2 ELSE 1]
\* insert the dart u -> x after the dart c = <<u, v>>
Ins(r, c, x) == [d \in DOMAIN r \cup {<<c[1], x>>} |-> IF d = c THEN x ELSE IF d = <<c[1], x>> THEN r[c] ELSE r[d]]
Hang(c) == /\ n < NMax /\ Cardinality(E) < EMax
           /\ n' = n + 1 /\ E' = E \cup {<<c[1], n + 1>>}
           /\ rot' = LET r == Ins(rot, c, n + 1) IN
                     [d \in DOMAIN r \cup {<<n + 1, c[1]>>} |-> IF d = <<n + 1, c[1]>> THEN c[1] ELSE r[d]]
Chord(c, e) == /\ Cardinality(E) < EMax /\ c[1] < e[1] /\ <<c[1], e[1]>> \notin E
               /\ (ANY \/ Rng(FaceOf(rot, Rev(c))) = Rng(FaceOf(rot, Rev(e))))
               /\ E' = E \cup {<<c[1], e[1]>>} /\ n' = n
               /\ rot' = Ins(Ins(rot, c, e[1]), e, c[1])
Next == \/ \E c \in DartsOf(E) : Hang(c)
        \/ \E c, e \in DartsOf(E) : Chord(c, e)
Faces == FaceSets(rot, DartsOf(E))
EveryDartOnce == \A f, g \in Faces : f = g \/ f \cap g = {}
Euler == n - Cardinality(E) + Cardinality(Faces) = 2
\* the dual of the edges outside a spanning tree is a tree on the faces
DualTree == \A T \in SpanningTrees(1..n, E) :
    LET FL == FaceList(rot, DartsOf(E))
        side(d) == CHOOSE k \in 1..Len(FL) : d \in Rng(FL[k])
        H == {Und(side(e), side(Rev(e))) : e \in E \ T}
    IN IsTreeOn(1..Len(FL), H) /\ Cardinality(H) = Cardinality(E \ T)
Emit == JSONOUT => PrintT("SCEN " \o ToJson([n |-> n, rot |-> {<<d[1], d[2], rot[d]>> : d \in DOMAIN rot}]))
=============================================================================
