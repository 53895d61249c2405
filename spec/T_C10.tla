------------------------------- MODULE T_C10 --------------------------------
(* conformance of is_symp, check_canonical_form, is_matchgate *)
EXTENDS TraceShell, Pred
Expected(ev) == CASE ev.fn = "is_symp" -> IsSymp(ev.M, ev.den)
                  [] ev.fn = "check_canonical_form" -> IsCanon(ev.M)
                  [] ev.fn = "is_matchgate" -> IsMatchgate(ev.M)
Fails(ev) ==
    IF ev.exc # "" THEN {"must_answer"}
    ELSE IF ~ev.out.bool THEN {"answer_is_boolean"}
    ELSE LET e == Expected(ev) IN
         IF ev.out.v = e THEN {} ELSE {IF e THEN ev.fn \o "_rejects_valid" ELSE ev.fn \o "_accepts_invalid"}
MyStep(s, ev) == Stateless(Fails(ev), s)
MyInit == 0
=============================================================================
