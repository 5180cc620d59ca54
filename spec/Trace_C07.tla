------------------------------ MODULE Trace_C07 ------------------------------
(***************************************************************************)
(* C07: the MO reader is safe on any bytes and reports damage.             *)
(***************************************************************************)
EXTENDS MoFormat, TraceRun

Sum(xs) == FoldLeft(LAMBDA a, x : a + x, 0, xs)
Check(r) ==
    LET b == r.in.mo
        file == MoRead(b)
        odd == file.odd \/ \E i \in 1..Len(file.strs) : OddString(file.strs[i])
        es == [i \in 1..Len(file.strs) |-> Decode(file.strs[i])]
        named == Sum([i \in 1..Len(file.strs) |-> Len(file.strs[i].id) + Len(file.strs[i].tr)])
        sorted == \A i \in 1..(Len(es) - 1) : Lex(Key(es[i]), Key(es[i + 1])) <= 0
        wrong == r.in.endian # 0 /\ file.st = "ok" /\ Order(b) # (IF r.in.endian = 2 THEN "be" ELSE "le")
    IN (IF (file.st = "bad" \/ wrong) /\ ~r.out.err THEN {"damage is not reported"} ELSE {})
       \union (IF file.st = "ok" /\ ~odd /\ ~wrong /\ r.in.sorted /\ ~sorted /\ ~r.out.err THEN {"an unsorted file is not reported"} ELSE {})
       \union (IF file.st = "ok" /\ ~odd /\ ~wrong /\ (~r.in.sorted \/ sorted) /\ r.out.err THEN {"a valid file is rejected"} ELSE {})
       \union (IF file.st = "ok" /\ ~odd /\ ~r.out.err /\ r.out.es # es THEN {"the strings returned are not those of the file"} ELSE {})
       \union (IF r.out.alloc > 400 * Len(b) + 100 * named + 4000000 THEN {"allocates far beyond the input"} ELSE {})
       \union (IF r.out.unseen # 0 THEN {"a source that fails is not reported"} ELSE {})
Accepted == Judge(Check)
=============================================================================
