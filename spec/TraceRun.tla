------------------------------- MODULE TraceRun -------------------------------
(***************************************************************************)
(* Runs through recorded executions of the real code, in parallel lanes,   *)
(* and prints every record that the specification does not allow:          *)
(*   <<"BAD", n, names of the violated clauses>>                           *)
(* A module that extends this one defines Check(r), the names of the       *)
(* clauses that record r violates, and                                     *)
(*   Accepted == Judge(LAMBDA r : Check(r))                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLE at          \* number of the record being checked, <= 0 before the first of a lane

Recs == ndJsonDeserialize(IOEnv.RECS)
N == Len(Recs)
LANES == 64

Init == at \in {k - LANES : k \in 1..LANES}
Next == /\ at + LANES <= N
        /\ at' = at + LANES

Report(n, v) == IF v = {} THEN TRUE ELSE PrintT(<<"BAD", n, v>>)
Judge(Check(_)) == at >= 1 => Report(at, IF Recs[at].fail # "" THEN {Recs[at].fail} ELSE Check(Recs[at]))
=============================================================================
