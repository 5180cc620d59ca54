------------------------------ MODULE Trace_C13 ------------------------------
(***************************************************************************)
(* C13: merging keeps translations and covers the reference exactly.       *)
(* in: def, ref, cfg   out: sdef, sref (resolved), sim, out                *)
(***************************************************************************)
EXTENDS Merge, TraceRun

Check(r) ==
    LET def == r.out.sdef ref == r.out.sref out == r.out.out cfg == r.in.cfg IN
    (IF Covers(out, ref) THEN {} ELSE {"a reference message is missing or wrong"})
    \union (IF NoMore(out, def, ref) THEN {} ELSE {"duplicate or invented messages"})
    \union (IF KeepsExact(out, def, ref) THEN {} ELSE {"a translation of an exact match is not kept"})
    \union (IF DropsNothing(out, def, ref, cfg) THEN {} ELSE {"an unmatched message is not kept"})
    \union (IF KeepsHeader(out, def) THEN {} ELSE {"the header is changed"})
    \union (IF SortedAs(out, cfg) THEN {} ELSE {"not sorted"})
Accepted == Judge(Check)
=============================================================================
