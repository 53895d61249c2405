------------------------------- MODULE M_C13 --------------------------------
(***************************************************************************)
(* The seeding discipline.  The global generator is a term: the last reseed *)
(* followed by the draws made since.  A call with a seed reseeds first (so  *)
(* its result is a function of its arguments); a call without a seed draws  *)
(* from the term as it stands.  `log' records every call with its result.   *)
(***************************************************************************)
EXTENDS Num, Json
CONSTANTS L, Funs, Seeds
VARIABLES gen, log
vars == <<gen, log>>
Init == gen = <<-1>> /\ log = << >>
Reseed(s) == gen' = <<s>> /\ log' = Append(log, [op |-> "reseed", f |-> "", s |-> s, r |-> << >>, g |-> gen])
Seeded(f, s) == LET g == <<s>> IN
    /\ gen' = Append(g, f)
    /\ log' = Append(log, [op |-> "seeded", f |-> f, s |-> s, r |-> Append(g, f), g |-> gen])
Unseeded(f) == /\ gen' = Append(gen, f)
               /\ log' = Append(log, [op |-> "unseeded", f |-> f, s |-> 0, r |-> Append(gen, f), g |-> gen])
Next == /\ Len(log) < L
        /\ \/ \E s \in Seeds : Reseed(s) \/ \E f \in Funs : Seeded(f, s)
           \/ \E f \in Funs : Unseeded(f)
\* what a user may rely on
Reproducible == \A i, j \in 1..Len(log) :
    (log[i].op = "seeded" /\ log[j].op = "seeded" /\ log[i].f = log[j].f)
        => ((log[i].s = log[j].s) <=> (log[i].r = log[j].r))
FollowsGenerator == \A i, j \in 1..Len(log) :
    (log[i].op = "unseeded" /\ log[j].op = "unseeded" /\ log[i].f = log[j].f /\ log[i].g = log[j].g) => log[i].r = log[j].r
Advances == \A i \in 1..Len(log) : \A j \in 1..Len(log) :
    (i < j /\ log[i].op = "unseeded" /\ log[j].op = "unseeded"
     /\ \A k \in i..j : log[k].op = "unseeded") => log[i].r # log[j].r
Emit == Len(log) = L => PrintT("SCEN " \o ToJson([ops |-> [i \in 1..L |-> <<log[i].op, log[i].f, log[i].s>>]]))
=============================================================================
