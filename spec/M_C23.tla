------------------------------- MODULE M_C23 --------------------------------
(***************************************************************************)
(* A composite operator built from terms v |i><j| (x) |k><l|, next to the   *)
(* two reduced operators, which receive v |i><j| when k = l and v |k><l|     *)
(* when i = j.                                                               *)
(***************************************************************************)
EXTENDS Tensor, Json
CONSTANTS Dims, L
VARIABLES a, b, m, ra, rb, hist
vars == <<a, b, m, ra, rb, hist>>
DimsDef == {<<1, 2>>, <<2, 1>>, <<2, 2>>, <<3, 2>>}
DimsDeep == {<<2, 3>>, <<2, 4>>, <<4, 2>>}
Vals == {<<1, 0>>, <<0, 1>>}
Init == \E d \in Dims : /\ a = d[1] /\ b = d[2] /\ m = CZeroMat(a * b, a * b)
                        /\ ra = CZeroMat(a, a) /\ rb = CZeroMat(b, b) /\ hist = << >>
\* terms are added in a fixed order (the sum does not depend on it)
Key(i, j, k, l) == ((i * 10 + j) * 10 + k) * 10 + l
Add(i, j, k, l, v) ==
    /\ Len(hist) < L
    /\ IF hist = << >> THEN TRUE ELSE LET h == hist[Len(hist)] IN Key(i, j, k, l) > Key(h[1], h[2], h[3], h[4])
    /\ m' = CMatAdd(m, Kron(Unit(a, i, j, v), Unit(b, k, l, COne)))
    /\ ra' = IF k = l THEN CMatAdd(ra, Unit(a, i, j, v)) ELSE ra
    /\ rb' = IF i = j THEN CMatAdd(rb, Unit(b, k, l, v)) ELSE rb
    /\ hist' = Append(hist, <<i, j, k, l, v>>)
    /\ UNCHANGED <<a, b>>
Next == \E i, j \in 1..a, k, l \in 1..b, v \in Vals : Add(i, j, k, l, v)
Reduced == CMatEq(TraceLast(m, a), ra) /\ CMatEq(TraceFirst(m, b), rb)
BraKet == CMatEq(TraceLastBraKet(m, a), ra) /\ CMatEq(TraceFirstBraKet(m, b), rb)
TraceKept == CTrace(ra) = CTrace(m) /\ CTrace(rb) = CTrace(m)
HermKept == CMatEq(m, CDagger(m)) => CMatEq(ra, CDagger(ra)) /\ CMatEq(rb, CDagger(rb))
\* a product operator factorises
Products == /\ CMatEq(TraceLast(Kron(ra, rb), a), CMatCMul(CTrace(rb), ra))
            /\ CMatEq(TraceFirst(Kron(ra, rb), b), CMatCMul(CTrace(ra), rb))
\* three factors: the order of tracing does not matter
ThreeFactors == LET t == Kron(m, Unit(2, 1, 1, <<1, 1>>)) IN
    /\ CMatEq(TraceLast(TraceFirst(t, 2 * b), b), TraceFirst(TraceLast(t, a * b), b))
    /\ CMatEq(TraceLast(t, a), TraceLast(TraceLast(t, a * b), a))
Emit == Len(hist) = L => PrintT("SCEN " \o ToJson([a |-> a, b |-> b, ops |-> hist]))
=============================================================================
