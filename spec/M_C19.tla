------------------------------- MODULE M_C19 --------------------------------
(***************************************************************************)
(* The FKT orientation procedure on plane graphs (grown as in M_C20): pick  *)
(* a spanning tree and a root face, orient the tree edges any way, then     *)
(* repeatedly complete a non-root face which has one unassigned edge left,  *)
(* in any order.  When no edge is left the orientation must be Pfaffian.    *)
(* FREE lets every tree orientation be tried (otherwise all +1); with       *)
(* EVEN set, faces are completed to an even count instead (refuted).        *)
(***************************************************************************)
EXTENDS Graph, Json
CONSTANTS NMax, EMax, FREE, EVEN
VARIABLES n, E, rot, T, P, FL, root, log
vars == <<n, E, rot, T, P, FL, root, log>>
G == INSTANCE M_C20 WITH ANY <- FALSE, JSONOUT <- FALSE
Grow == T = {} /\ G!Next /\ UNCHANGED <<T, P, FL, root, log>>
Init == G!Init /\ T = {} /\ P = << >> /\ FL = << >> /\ root = 0 /\ log = << >>
Start == /\ T = {} /\ \E t \in SpanningTrees(1..n, E) :
              LET L == FaceList(rot, DartsOf(E)) IN
              \E r \in 1..Len(L), o \in (IF FREE THEN [t -> {1, -1}] ELSE {[e \in t |-> 1]}) :
                /\ T' = t /\ FL' = L /\ root' = r
                /\ P' = MkMat(n, n, LAMBDA i, j : IF Und(i, j) \notin t THEN 0 ELSE IF i < j THEN o[<<i, j>>] ELSE -o[<<j, i>>])
         /\ UNCHANGED <<n, E, rot, log>>
Unassigned(f) == {k \in 1..Len(f) : P[f[k][1]][f[k][2]] = 0}
\* the value that makes the face have the wanted sign
Val(f, k) == LET dir == IF f[k][1] < f[k][2] THEN 1 ELSE -1
                 s == ProdTo([j \in 1..Len(f) |-> IF j = k THEN dir
                        ELSE IF f[j][1] < f[j][2] THEN P[f[j][1]][f[j][2]] ELSE -P[f[j][2]][f[j][1]]], Len(f))
             IN IF EVEN THEN s ELSE -s
Complete(m) == /\ T # {} /\ m # root
               /\ Cardinality(Unassigned(FL[m])) = 1
               /\ LET f == FL[m]  k == CHOOSE x \in Unassigned(f) : TRUE
                      u == Min2(f[k][1], f[k][2])  v == Max2(f[k][1], f[k][2])  w == Val(f, k) IN
                  /\ P' = [P EXCEPT ![u][v] = w, ![v][u] = w]
                  /\ log' = Append(log, [face |-> f, before |-> P, u |-> u, v |-> v])
               /\ UNCHANGED <<n, E, rot, T, FL, root>>
Next == Grow \/ Start \/ \E m \in 1..Len(FL) : Complete(m)
Assigned == T # {} /\ \A e \in E : P[e[1]][e[2]] # 0
\* never stuck before every edge is oriented
Progress == (T # {} /\ ~Assigned) => \E m \in 1..Len(FL) : m # root /\ Cardinality(Unassigned(FL[m])) = 1
OddFaces == Assigned => \A m \in 1..Len(FL) : m # root => FaceSign(P, FL[m]) = -1
\* an even number of vertices makes the root face odd as well
RootFace == (Assigned /\ n % 2 = 0) => FaceSign(P, FL[root]) = -1
Pfaffian == Assigned => PfaffianOrientation(n, E, P)
Emit == (Assigned /\ Len(log) > 0) =>
    PrintT("SCEN " \o ToJson([n |-> n, rot |-> {<<d[1], d[2], rot[d]>> : d \in DOMAIN rot}, T |-> T, steps |-> log]))
=============================================================================
