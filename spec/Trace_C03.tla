------------------------------ MODULE Trace_C03 ------------------------------
(***************************************************************************)
(* C03: the reader answers for every text, and rightly.                    *)
(***************************************************************************)
EXTENDS PoText, TraceRun

Check(r) ==
    LET spec == Read(r.in.text, r.in.opt) IN
    (IF r.out.nil /\ ~r.out.err THEN {"neither messages nor an error"} ELSE {})
    \union (IF spec.st = "ok" /\ r.out.err THEN {"a complete text is rejected"} ELSE {})
    \union (IF spec.st = "bad" /\ ~r.out.err THEN {"an incomplete or malformed text is accepted"} ELSE {})
    \union (IF r.out.unseen # 0 THEN {"a source that fails is not reported"} ELSE {})
Accepted == Judge(Check)
=============================================================================
