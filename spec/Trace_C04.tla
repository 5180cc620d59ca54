------------------------------ MODULE Trace_C04 ------------------------------
(***************************************************************************)
(* C04: PO output options change only what they name.                      *)
(* in: es, cfg, hl, wrap, marker    out: text, plain (not highlighted),    *)
(* base (written without any option), err, hc (fields of the configured    *)
(* header), texts (what the highlighting functions make of plain, if else)  *)
(***************************************************************************)
EXTENDS PoOptions, Ascii, TraceRun

HasText(coms, t) == \E i \in 1..Len(coms) : \E k \in 1..(Len(coms[i]) - Len(t) + 1) : StartsAt(coms[i], k, t)

Check(r) ==
    LET cfg == [r.in.cfg EXCEPT !.hc = r.out.hc]
        opt == [DefaultOpt EXCEPT !.clean = FALSE, !.marker = r.in.marker]
        spec == Read(r.out.plain, opt)
        want == Written(r.in.es, cfg)
    IN (IF r.out.err THEN {"writing fails"} ELSE {})
       \union (IF spec.st = "ok" /\ SameMessages(spec.es, want, cfg) THEN {} ELSE {"the options change something else in the messages"})
       \union (IF r.in.hl = "none" \/ StripColours(r.out.text) = StripColours(r.out.plain) THEN {} ELSE {"highlighting changes the text"})
       \union (IF \A i \in 1..Len(r.out.texts) : StripColours(r.out.texts[i]) = StripColours(r.out.plain) THEN {} ELSE {"highlighting a text changes it"})
       \union (IF Managed(r.in.es, cfg) /\ cfg.hcom /\ spec.st = "ok" /\ spec.es # <<>>
               /\ ~(IF cfg.title = <<>> THEN TRUE ELSE HasText(spec.es[1].com, cfg.title))
               THEN {"the title is missing"} ELSE {})
       \union (IF Managed(r.in.es, cfg) /\ cfg.hcom /\ ~cfg.foreign /\ spec.st = "ok" /\ spec.es # <<>>
               /\ ~(/\ cfg.holder = <<>> \/ HasText(spec.es[1].com, cfg.holder)
                    /\ cfg.pkg = <<>> \/ HasText(spec.es[1].com, cfg.pkg))
               THEN {"the copyright is missing"} ELSE {})
       \union (IF Managed(r.in.es, cfg) /\ cfg.hcom /\ cfg.foreign /\ spec.st = "ok" /\ spec.es # <<>>
               /\ ~HasText(spec.es[1].com, B("public domain"))
               THEN {"the public domain is not mentioned"} ELSE {})
Accepted == Judge(Check)
=============================================================================
