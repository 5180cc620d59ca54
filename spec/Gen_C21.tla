------------------------------- MODULE Gen_C21 -------------------------------
(* Programs of the grammar as sources for the real code. *)
EXTENDS MC_GoExtract, CSV, Json, IOUtils
VARIABLE all
GInit == Init /\ all \in BOOLEAN
GNext == Next /\ UNCHANGED all
Emit == (~Ambiguous(all) /\ (Small \/ y # Plain)) => CSVWrite("%1$s", <<ToJson([files |-> <<[name |-> NAME, src |-> Source(p, y)]>>, all |-> all, clean |-> y = Plain, hdr |-> 0, htext |-> <<>>, disk |-> FALSE])>>, IOEnv.CASES)
=============================================================================
