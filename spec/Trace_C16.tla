------------------------------ MODULE Trace_C16 ------------------------------
(***************************************************************************)
(* C16: operations leave their input catalogues untouched and are          *)
(* repeatable.  A recorded history must keep the frame condition of        *)
(* spec/Heap.tla: an operation changes at most the catalogue that it       *)
(* names: the one that receives its result (filters and the like) or the   *)
(* one it is called on (sort, set); and running it again answers the same. *)
(* in: ops = <<[op, a, b, to, n]>>                                         *)
(* out: init and, per step, regs (the value of every catalogue and of the  *)
(* memory behind its lists), res, res2                                     *)
(***************************************************************************)
EXTENDS TraceRun, FiniteSets
Changing == {"sort", "set"}
Looking == {"compilepo", "compilemo", "compileagain", "validate", "format", "header", "query"}
Named(o) == CASE o.op \in Changing -> {o.a + 1} [] o.op \in Looking -> {} [] OTHER -> {o.to + 1}
Changed(x, y) == {i \in 1..Len(x) : x[i] # y[i]}
StepErrors(before, o, s) ==
    (IF Changed(before, s.regs) \subseteq Named(o) THEN {} ELSE {"a catalogue is changed by " \o o.op})
    \union (IF s.res = s.res2 THEN {} ELSE {"another answer when repeated: " \o o.op})
Check(r) ==
    IF Len(r.out.steps) # Len(r.in.ops) THEN {"steps are missing"}
    ELSE UNION {StepErrors(IF i = 1 THEN r.out.init ELSE r.out.steps[i - 1].regs, r.in.ops[i], r.out.steps[i]) : i \in 1..Len(r.in.ops)}
Accepted == Judge(Check)
=============================================================================
