------------------------------ MODULE Trace_C20 ------------------------------
(***************************************************************************)
(* C20: extract-all collects every string literal exactly once.            *)
(* in, out: as for C19                                                     *)
(***************************************************************************)
EXTENDS GoExtract, TraceRun
Way(r, w, xs) ==
    LET es == IF r.in.hdr # 0 /\ w.way # "file" /\ w.es # <<>> THEN SubSeq(w.es, 2, Len(w.es)) ELSE w.es
    IN IF w.lost THEN {"no result (" \o w.way \o ")"}
       ELSE IF HoldsBag(es, InTextOrder(xs), r.in.clean /\ w.way # "file") THEN {}
            ELSE {"other messages than the string literals (" \o w.way \o ")"}
Check(r) == LET xs == MsgsOf(r.in.files, TRUE) IN UNION {Way(r, r.out.ways[i], xs) : i \in 1..Len(r.out.ways)}
Accepted == Judge(Check)
=============================================================================
