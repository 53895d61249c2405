------------------------------- MODULE M_C14 --------------------------------
(***************************************************************************)
(* A heap with two kinds of cells: inputs owned by the caller and results   *)
(* handed out by the library.  A call reads one input and returns a fresh   *)
(* cell; the caller may scribble over any result it holds and may write a   *)
(* new value into an input it owns.  A cell is an object: calls are         *)
(* functions of the value found in it, never of its identity.  CACHE names  *)
(* a design: "none" (the specification), "value" (results shared between    *)
(* equal calls), "identity" (results remembered per input object); TLC      *)
(* finds Repeatable violated under the latter two.                          *)
(***************************************************************************)
EXTENDS Num, Json
CONSTANTS L, Funs, Ins, Vals, CACHE
VARIABLES inp, heap, cache, log
vars == <<inp, heap, cache, log>>
Good(f, v) == <<"value", f, v>>
Junk == <<"junk", "", 0>>
Init == inp = [i \in Ins |-> i] /\ heap = << >> /\ cache = << >> /\ log = << >>
Key(f, i) == IF CACHE = "identity" THEN <<f, i>> ELSE <<f, inp[i]>>
Hits(f, i) == {c \in 1..Len(cache) : cache[c][1] = Key(f, i)}
Rec(op, f, i, v, a, r) == [op |-> op, f |-> f, i |-> i, v |-> v, a |-> a, r |-> r]
Call(f, i) ==
    IF CACHE # "none" /\ Hits(f, i) # {}
    THEN LET a == cache[CHOOSE c \in Hits(f, i) : TRUE][2] IN
         /\ log' = Append(log, Rec("call", f, i, inp[i], a, heap[a]))
         /\ UNCHANGED <<inp, heap, cache>>
    ELSE LET a == Len(heap) + 1 IN
         /\ heap' = Append(heap, Good(f, inp[i]))
         /\ cache' = Append(cache, <<Key(f, i), a>>)
         /\ log' = Append(log, Rec("call", f, i, inp[i], a, heap'[a]))
         /\ UNCHANGED inp
Scribble(a) == /\ heap[a] # Junk
               /\ heap' = [heap EXCEPT ![a] = Junk]
               /\ log' = Append(log, Rec("scribble", "", 0, 0, a, Junk))
               /\ UNCHANGED <<inp, cache>>
Rewrite(i, v) == /\ inp[i] # v
                 /\ inp' = [inp EXCEPT ![i] = v]
                 /\ log' = Append(log, Rec("rewrite", "", i, v, 0, Junk))
                 /\ UNCHANGED <<heap, cache>>
Next == Len(log) < L /\ \/ \E f \in Funs, i \in Ins : Call(f, i)
                        \/ \E a \in 1..Len(heap) : Scribble(a)
                        \/ \E i \in Ins, v \in Vals : Rewrite(i, v)
\* every call answers for the value its input has at that moment
Repeatable == \A x \in 1..Len(log) : log[x].op = "call" => log[x].r = Good(log[x].f, log[x].v)
\* only Rewrite changes inputs
LastWrite(i) == LET W == {k \in 1..Len(log) : log[k].op = "rewrite" /\ log[k].i = i} IN
                IF W = {} THEN i ELSE log[CHOOSE k \in W : \A j \in W : j <= k].v
InputsKept == \A i \in Ins : inp[i] = LastWrite(i)
Emit == (Len(log) = L /\ log[L].op = "call") =>
          PrintT("SCEN " \o ToJson([ops |-> [k \in 1..L |-> <<log[k].op, log[k].f, log[k].i, log[k].v, log[k].a>>]]))
=============================================================================
