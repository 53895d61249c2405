------------------------------- MODULE M_C36 --------------------------------
(***************************************************************************)
(* Figures of graphs, drawn mark by mark.  A plane figure (mode "pfo") has  *)
(* a line for each edge and a highlighted arrow for each oriented edge,     *)
(* from the lesser to the greater node where the orientation matrix is      *)
(* negative; a weighted figure has a line for each edge of a symmetric      *)
(* matrix or an arc bending to the right for each entry of another one,     *)
(* with the weight written on or beside it at three tenths of the way from  *)
(* its start.  Read back as geometry, a finished figure has to be the       *)
(* matrix it was drawn from.  With CONVEX positions plane figures have      *)
(* crossings, and with STRAIGHT arcs the figures cannot be read.            *)
(***************************************************************************)
EXTENDS Drawing, Json
CONSTANTS N, W, CONVEX, STRAIGHT, JSONOUT
VARIABLES mode, A, todo, dots, names, lines, arrows, reds, texts
vars == <<mode, A, todo, dots, names, lines, arrows, reds, texts>>
Pos == IF CONVEX THEN <<<<0, 0>>, <<200, 0>>, <<200, 200>>, <<0, 200>>>>
       ELSE <<<<0, 0>>, <<400, 20>>, <<190, 440>>, <<200, 130>>>>
V == 1..N
Pairs == {p \in V \X V : p[1] # p[2]}
Ups == {p \in V \X V : p[1] < p[2]}
\* orientation matrices: 9 stands for an edge that is not oriented
Orient == [Ups -> {0, 1, -1, 9}]
Weighted == [Pairs -> W]
Symmetric == \A p \in Pairs : A[p] = A[<<p[2], p[1]>>]
Directed == mode = "weights" /\ ~Symmetric
Entries == {p \in DOMAIN A : A[p] # 0 /\ (Directed \/ p[1] < p[2])}
Init == /\ \/ mode = "pfo" /\ A \in Orient
           \/ mode = "weights" /\ A \in Weighted
        /\ todo = <<"nodes", "names", "edges", "marks">>
        /\ dots = << >> /\ names = << >> /\ lines = << >> /\ arrows = << >> /\ reds = << >> /\ texts = << >>
Nodes == todo # << >> /\ todo[1] = "nodes" /\ dots' = [i \in V |-> Pos[i]] /\ todo' = Tail(todo)
         /\ UNCHANGED <<mode, A, names, lines, arrows, reds, texts>>
Names == todo # << >> /\ todo[1] = "names" /\ names' = [i \in V |-> Pos[i]] /\ todo' = Tail(todo)
         /\ UNCHANGED <<mode, A, dots, lines, arrows, reds, texts>>
RECURSIVE Seq2(_)
Seq2(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o Seq2(S \ {x})
Edges == LET es == Seq2(Entries)  ends == [k \in 1..Len(es) |-> <<Pos[es[k][1]], Pos[es[k][2]]>>] IN
         todo # << >> /\ todo[1] = "edges" /\ todo' = Tail(todo)
         /\ (IF Directed THEN arrows' = ends /\ lines' = lines ELSE lines' = ends /\ arrows' = arrows)
         /\ UNCHANGED <<mode, A, dots, names, reds, texts>>
\* three tenths of the way from u to v, and a tenth of the length to the right
At(u, v) == LET x == (7 * u[1] + 3 * v[1]) \div 10  y == (7 * u[2] + 3 * v[2]) \div 10
                dx == v[1] - u[1]  dy == v[2] - u[2]
            IN IF Directed /\ ~STRAIGHT THEN <<x + dy \div 10, y - dx \div 10>> ELSE <<x, y>>
Marks == LET es == Seq2(Entries) IN
         todo # << >> /\ todo[1] = "marks" /\ todo' = Tail(todo)
         /\ (IF mode = "pfo"
            THEN LET os == Seq2({p \in Entries : A[p] # 9}) IN
                 reds' = [k \in 1..Len(os) |-> IF A[os[k]] < 0 THEN <<Pos[os[k][1]], Pos[os[k][2]]>> ELSE <<Pos[os[k][2]], Pos[os[k][1]]>>]
                 /\ texts' = texts
            ELSE texts' = [k \in 1..Len(es) |-> <<A[es[k]], At(Pos[es[k][1]], Pos[es[k][2]])>>] /\ reds' = reds)
         /\ UNCHANGED <<mode, A, dots, names, lines, arrows>>
Next == Nodes \/ Names \/ Edges \/ Marks
Done == todo = << >>
\* reading
Node(p) == NodeAt(names, p)
ReadLines == {Und(Node(lines[k][1]), Node(lines[k][2])) : k \in 1..Len(lines)}
ReadArrows == {<<Node(arrows[k][1]), Node(arrows[k][2])>> : k \in 1..Len(arrows)}
ReadReds == {<<Node(reds[k][1]), Node(reds[k][2])>> : k \in 1..Len(reds)}
NamesReadable == Done => \A i \in V : Node(dots[i]) = i
PlaneReadable == (Done /\ mode = "pfo") =>
    /\ ReadLines = {p \in Ups : A[p] # 0}
    /\ \A p \in Ups : /\ (A[p] = -1) = (<<p[1], p[2]>> \in ReadReds)
                      /\ (A[p] = 1) = (<<p[2], p[1]>> \in ReadReds)
NoCrossings == (Done /\ mode = "pfo") => \A j, k \in 1..Len(lines) : ~Crossing(lines[j][1], lines[j][2], lines[k][1], lines[k][2], 0)
\* each text belongs to one edge only, and gives its weight
Belongs(t, e) == IF Directed THEN BesideArc(Pos[e[1]], Pos[e[2]], t[2]) ELSE OnSeg(Pos[e[1]], Pos[e[2]], t[2], 1)
WeightsReadable == (Done /\ mode = "weights") =>
    /\ IF Directed THEN ReadArrows = Entries ELSE ReadLines = Entries
    /\ \A k \in 1..Len(texts) : \E e \in Entries : Belongs(texts[k], e) /\ A[e] = texts[k][1]
    /\ \A e \in Entries : \E k \in 1..Len(texts) : Belongs(texts[k], e) /\ A[e] = texts[k][1]
    /\ Len(texts) = Cardinality(Entries)
    \* the two weights of a pair are told apart, and texts near an edge are never the other one's
    /\ Directed => \A k \in 1..Len(texts) : \A e \in Entries : Belongs(texts[k], e) => ~Belongs(texts[k], <<e[2], e[1]>>)
    /\ ~Directed => \A e \in Entries : Cardinality({k \in 1..Len(texts) : Belongs(texts[k], e)}) = 1
Emit == (JSONOUT /\ todo # << >> /\ todo[1] = "nodes") =>
    PrintT("SCEN " \o ToJson([mode |-> mode, n |-> N, a |-> {<<p[1], p[2], A[p]>> : p \in {q \in DOMAIN A : A[q] # 0}}]))
=============================================================================
