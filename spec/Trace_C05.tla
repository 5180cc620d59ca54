------------------------------ MODULE Trace_C05 ------------------------------
(***************************************************************************)
(* C05: compiling to MO and reading it back keeps every live translation.  *)
(***************************************************************************)
EXTENDS MoFormat, TraceRun

Check(r) ==
    LET kept == IF r.in.raw THEN r.in.es ELSE MoMessages(r.in.es)
        ms == IF r.in.asis THEN kept ELSE Sorted(kept)
        want == [i \in 1..Len(ms) |-> MoProjection(ms[i])]
        file == MoRead(r.out.mo)
    IN (IF r.out.err THEN {"the compiled file can't be read"} ELSE {})
       \union (IF ~r.out.err /\ r.out.es # want THEN {"the messages read back differ"} ELSE {})
       \union (IF file.st = "ok" /\ [i \in 1..Len(file.strs) |-> Decode(file.strs[i])] = want THEN {} ELSE {"the file holds other messages"})
       \union (IF Order(r.out.mo) = (IF r.in.endian = 2 THEN "be" ELSE "le") THEN {} ELSE {"another byte order"})
Accepted == Judge(Check)
=============================================================================
