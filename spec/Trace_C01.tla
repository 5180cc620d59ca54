------------------------------ MODULE Trace_C01 ------------------------------
(***************************************************************************)
(* C01: writing a catalogue and reading the text back gives it again.      *)
(* in:  es, wrap, ...   out: text (written), err, es (read by the code)    *)
(***************************************************************************)
EXTENDS PoText, TraceRun

Expected(es) == LET all == [i \in 1..Len(es) |-> Filled(es[i])] IN Live(all) \o Obsolete(all)

Check(r) ==
    LET want == Expected(r.in.es)
        spec == Read(r.out.text, [DefaultOpt EXCEPT !.clean = FALSE])
    IN (IF r.out.err THEN {"reading the written text fails"} ELSE {})
       \union (IF ~r.out.err /\ r.out.es # want THEN {"the catalogue read back differs"} ELSE {})
       \union (IF spec.st = "ok" /\ spec.es # want THEN {"the written text means something else"} ELSE {})
       \union (IF spec.st = "bad" THEN {"the written text is not PO"} ELSE {})

Accepted == Judge(Check)
=============================================================================
