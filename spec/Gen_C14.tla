------------------------------- MODULE Gen_C14 -------------------------------
(* Merges of small catalogues as cases for the real code. *)
EXTENDS MC_Merge, CSV, Json, IOUtils
Stop == FALSE /\ UNCHANGED vars
Emit == CSVWrite("%1$s", <<ToJson([def |-> def, ref |-> ref, cfg |-> cfg, r |-> Len(def) + 2 * Len(ref)])>>, IOEnv.CASES)
=============================================================================
