------------------------------- MODULE Gen_C19 -------------------------------
(* Programs of the grammar as sources for the real code. *)
EXTENDS MC_GoExtract, CSV, Json, IOUtils
Emit == (TRUE) => CSVWrite("%1$s", <<ToJson([files |-> <<[name |-> NAME, src |-> Source(p, y)]>>, all |-> FALSE, clean |-> y = Plain, hdr |-> 0, htext |-> <<>>, disk |-> FALSE])>>, IOEnv.CASES)
=============================================================================
