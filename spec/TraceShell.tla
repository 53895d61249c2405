----------------------------- MODULE TraceShell -----------------------------
(***************************************************************************)
(* Trace validation.  The trace is the sequence of events recorded from    *)
(* the real code (one event per public call: name, arguments, result).     *)
(* Every event is one transition: Step(st, ev) is the specification's      *)
(* action for it, returning the successor of the abstract state and the    *)
(* set of clauses of the specification which the event violates.  The      *)
(* verdict is total: a violating event is recorded by name and the         *)
(* remaining trace is still checked.                                       *)
(***************************************************************************)
EXTENDS Num, Json, IOUtils

CONSTANTS Step(_, _), Init0

VARIABLES l, st, bad
tvars == <<l, st, bad>>

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

TInit == l = 1 /\ st = Init0 /\ bad = << >>

TStep == /\ l <= Len(Trace)
         /\ LET r == Step(st, Trace[l]) IN
              /\ st' = r.st
              /\ bad' = IF r.fails = {} THEN bad
                        ELSE Append(bad, [id |-> Trace[l].id, fails |-> r.fails])
         /\ l' = l + 1

TDone == /\ l = Len(Trace) + 1
         /\ JsonSerialize(IOEnv.OUT, [n |-> Len(Trace), bad |-> bad])
         /\ l' = l + 1
         /\ UNCHANGED <<st, bad>>

TNext == TStep \/ TDone

\* helper for specifications whose actions do not depend on earlier events
Stateless(fails, s) == [st |-> s, fails |-> fails]
Clause(name, holds) == IF holds THEN {} ELSE {name}
=============================================================================
