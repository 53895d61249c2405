------------------------------- MODULE T_C22 --------------------------------
(* conformance of clean, formatted_output, print_custom and _print.  Numbers
   are integers in units of 10^-q; a clean with nd digits and threshold
   tt 10^-(nd+1) rounds to multiples of p = 10^(q-nd). *)
EXTENDS TraceShell, Text
MyInit == << >>
Same(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : s[k] = t[k]
EvClean(vals, ev) ==
    IF ev.exc # "" THEN {"must_return"}
    ELSE IF ~ev.out.ok THEN {"result_is_numeric_on_the_lattice"}
    ELSE LET p == Pow10(ev.q - ev.nd)
             t == ev.tt * Pow10(ev.q - ev.nd - 1)
             arr == ev.cont \in {"ndarray", "matrix"}
             cs == ev.cont = "scalar"
             drop == (arr \/ cs) /\ DropsIm(vals, t)
             src(k) == IF drop THEN RealPart(vals[k]) ELSE vals[k]
             may(k) == IF cs THEN Rounded(src(k), p) ELSE Cleaned(src(k), p, t)
         IN Clause("argument_unchanged", ev.out.kept)
            \cup Clause("same_kind_of_container", ev.out.cont \in (IF ev.cont = "matrix" THEN {"matrix", "ndarray"} ELSE {ev.cont})
                   /\ Same(ev.out.shape, ev.shape))
            \cup Clause("imaginary_part_kept_or_dropped", ev.out.real = (~ev.cplx \/ drop))
            \cup Clause("entries_rounded_or_zeroed",
                   Len(ev.out.vals) = Len(vals) /\ \A k \in 1..Len(vals) : ev.out.vals[k] \in may(k))
EvString(ev) ==
    IF ev.exc # "" THEN {"must_return"}
    ELSE IF ev.numeric THEN Clause("numeric_string_rounded", ev.out.ok /\ ev.out.m \in Nearest(ev.m, Pow10(ev.q - ev.nd)))
    ELSE Clause("other_string_unchanged", ev.out.text = ev.text)
EvFormat(ev) ==
    IF ev.exc # "" THEN {"must_return"}
    ELSE IF ev.num = "other" THEN Clause("other_objects_by_str", ev.out.text = ev.str)
    ELSE LET A == Fixed(ev.re[1], ev.re[2], ev.prec) IN
         IF ev.num = "complex" /\ Visible(ev.im[1], ev.im[2])
         THEN Clause("complex_text", ev.out.text \in {a \o " + " \o b \o "j" : a \in A, b \in Fixed(ev.im[1], ev.im[2], ev.prec)})
         ELSE Clause("number_text", ev.out.text \in A)
EvPrint(ev) ==
    Clause("print_options_restored", ev.out.restored)
    \cup (IF ev.exc # "" THEN {"must_return"}
          ELSE IF ev.num THEN
             LET p == Pow10(ev.q - ev.k)  drop == DropsIm(ev.vals, p)
                 src(i) == IF drop THEN RealPart(ev.vals[i]) ELSE ev.vals[i] IN
             IF ~ev.out.ok THEN {"prints_numbers"} ELSE
             Clause("imaginary_part_shown_or_dropped", ev.out.real = drop)
             \cup Clause("prints_the_cleaned_values", Len(ev.out.vals) = Len(ev.vals)
                     /\ \A i \in 1..Len(ev.vals) : ev.out.vals[i] \in Cleaned(src(i), p, p))
          ELSE Clause("other_objects_by_str", ev.out.text = ev.str))
MyStep(s, ev) ==
    CASE ev.kind = "begin" -> Stateless({}, ev.vals)
      [] ev.kind = "step" ->           \* clean the previous result once more
           LET f == EvClean(s, ev) IN [st |-> IF f = {} THEN ev.out.vals ELSE s, fails |-> f]
      [] ev.kind = "clean" -> Stateless(EvClean(ev.vals, ev), s)
      [] ev.kind = "string" -> Stateless(EvString(ev), s)
      [] ev.kind = "format" -> Stateless(EvFormat(ev), s)
      [] ev.kind = "print" -> Stateless(EvPrint(ev), s)
      [] ev.kind = "refuse" -> Stateless(Clause("unsupported_type_refused", ev.out.type = "TypeError"), s)
=============================================================================
