------------------------------ MODULE Trace_C18 ------------------------------
(***************************************************************************)
(* C18: parsers and compilers can be reused.  A recorded history must be a *)
(* behaviour of spec/Reuse.tla, where Meaning of an input is what an       *)
(* instance made for it alone says (fresh).                                *)
(* in.ops = <<[op, ...]>>: run and spoil (the caller changes an answer)    *)
(* out: steps = <<[res, errs, fresh, ferrs, old (every answer so far),     *)
(* inputs (what was handed in)]>>, start (the inputs at first)             *)
(***************************************************************************)
EXTENDS TraceRun
Runs(ops, k) == Len(SelectSeq(SubSeq(ops, 1, k), LAMBDA o : o.op = "run"))
StepErrors(r, k) ==
    LET o == r.in.ops[k] s == r.out.steps[k]
        before == IF k = 1 THEN <<>> ELSE r.out.steps[k - 1].old
        spoilt == IF o.op = "spoil" THEN {o.k + 1} ELSE {}
    IN (IF s.inputs = r.out.start THEN {} ELSE {"an input is modified"})
       \union (IF s.res = s.fresh THEN {} ELSE {"another result than a fresh instance's"})
       \union (IF s.errs = s.ferrs THEN {} ELSE {"other errors than a fresh instance's"})
       \union (IF Len(s.old) = Runs(r.in.ops, k) /\ \A j \in 1..Len(before) : j \in spoilt \/ s.old[j] = before[j] THEN {}
               ELSE {"an earlier answer is changed"})
Check(r) == IF Len(r.out.steps) # Len(r.in.ops) THEN {"steps are missing"}
            ELSE UNION {StepErrors(r, k) : k \in 1..Len(r.in.ops)}
Accepted == Judge(Check)
=============================================================================
