------------------------------- MODULE MC_Reuse -------------------------------
(* Histories of runs on inputs with no, one and two errors. *)
EXTENDS Reuse
Errs(i) == [res |-> i, errs |-> [k \in 1..(i - 1) |-> k]]
=============================================================================
