------------------------------ MODULE Trace_C09 ------------------------------
(***************************************************************************)
(* C09: a catalogue is an ordered map with exact filters.  Each recorded   *)
(* step must be the transition that Apply gives from the recorded state    *)
(* before it.                                                              *)
(***************************************************************************)
EXTENDS CatOps, TraceRun

StepOk(before, o, s) ==
    LET a == Apply(before, o)
        after == IF o.op = "set" \/ (o.op \in Filters /\ o.rep) THEN a.es ELSE before
    IN (IF s.es = after THEN {} ELSE {"the catalogue after " \o o.op})
       \union (IF [n |-> s.n, b |-> s.b, s |-> s.s] = a.r THEN {} ELSE {"the answer of " \o o.op})
       \union (IF o.op \in Filters /\ s.res # a.es THEN {"the result of " \o o.op} ELSE {})
Check(r) ==
    IF Len(r.out.steps) # Len(r.in.ops) THEN {"steps are missing"}
    ELSE UNION {StepOk(IF i = 1 THEN r.in.es ELSE r.out.steps[i - 1].es, r.in.ops[i], r.out.steps[i]) : i \in 1..Len(r.in.ops)}
Accepted == Judge(Check)
=============================================================================
