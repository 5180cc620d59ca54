------------------------------ MODULE Trace_C02 ------------------------------
(***************************************************************************)
(* C02: a text that holds messages is read as exactly these.               *)
(* in: text, opt, has/want (what the text was made from)                   *)
(* out: err, nil, es                                                       *)
(***************************************************************************)
EXTENDS PoText, TraceRun

Check(r) ==
    LET spec == Read(r.in.text, r.in.opt) IN
    IF spec.st # "ok" THEN IF r.in.has THEN {"the specification rejects a text made to be read"} ELSE {}
    ELSE (IF r.in.has /\ spec.es # r.in.want THEN {"the specification misreads a text made to be read"} ELSE {})
         \union (IF r.out.err THEN {"a complete text is rejected"} ELSE {})
         \union (IF ~r.out.err /\ r.out.nil THEN {"no file and no error"} ELSE {})
         \union (IF ~r.out.err /\ r.out.es # spec.es THEN {"the messages read differ"} ELSE {})
         \union (IF ~r.out.err /\ ~r.out.name THEN {"the file has another name"} ELSE {})
Accepted == Judge(Check)
=============================================================================
