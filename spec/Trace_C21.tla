------------------------------ MODULE Trace_C21 ------------------------------
(***************************************************************************)
(* C21: every reference names the file and the line of its literal, one    *)
(* for every occurrence, in source order.                                  *)
(* in, out: as for C19                                                     *)
(***************************************************************************)
EXTENDS GoExtract, TraceRun
Way(r, w, xs) ==
    IF w.lost THEN {"no result (" \o w.way \o ")"}
    ELSE IF RefsAgree(w.es, InCallOrder(xs)) \/ RefsAgree(w.es, InTextOrder(xs)) THEN {}
         ELSE {"other references than the places of the literals (" \o w.way \o ")"}
Check(r) == LET xs == MsgsOf(r.in.files, r.in.all) IN UNION {Way(r, r.out.ways[i], xs) : i \in 1..Len(r.out.ways)}
Accepted == Judge(Check)
=============================================================================
