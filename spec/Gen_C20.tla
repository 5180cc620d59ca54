------------------------------- MODULE Gen_C20 -------------------------------
(* Programs of the grammar as sources for the real code. *)
EXTENDS MC_GoExtract, CSV, Json, IOUtils
Emit == (~Ambiguous(TRUE)) => CSVWrite("%1$s", <<ToJson([files |-> <<[name |-> NAME, src |-> Source(p, y)]>>, all |-> TRUE, clean |-> y = Plain, hdr |-> 0, htext |-> <<>>, disk |-> FALSE])>>, IOEnv.CASES)
=============================================================================
