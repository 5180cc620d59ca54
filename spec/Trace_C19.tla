------------------------------ MODULE Trace_C19 ------------------------------
(***************************************************************************)
(* C19: Go extraction finds exactly the gotext messages of a file.         *)
(* in: files = <<[name, src]>>, all, clean, hdr (0: none), htext           *)
(* out: ways = <<[way, es, bad, lost]>>, one for every way to extract      *)
(***************************************************************************)
EXTENDS GoExtract, TraceRun

HasText(s, t) == \E k \in 1..(Len(s) - Len(t) + 1) : StartsAt(s, k, t)
Way(r, w, xs) ==
    LET clean == r.in.clean /\ w.way # "file"
        hdr == r.in.hdr # 0 /\ w.way # "file"
        es == IF hdr /\ w.es # <<>> THEN SubSeq(w.es, 2, Len(w.es)) ELSE w.es
    IN IF w.lost THEN {"no result (" \o w.way \o ")"}
       ELSE (IF ~hdr \/ (w.es # <<>> /\ IsHeader(w.es[1]) /\ HasText(w.es[1].str, r.in.htext)) THEN {} ELSE {"the header (" \o w.way \o ")"})
       \union (IF HoldsOrdered(es, InCallOrder(xs), clean) \/ HoldsOrdered(es, InTextOrder(xs), clean)
               THEN {} ELSE {"other messages than those of the gotext calls (" \o w.way \o ")"})
       \union (IF w.bad = AnyBad(xs) THEN {} ELSE {"a malformed call and its error (" \o w.way \o ")"})
Check(r) == LET xs == MsgsOf(r.in.files, FALSE) IN UNION {Way(r, r.out.ways[i], xs) : i \in 1..Len(r.out.ways)}
Accepted == Judge(Check)
=============================================================================
