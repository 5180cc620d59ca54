-------------------------------- MODULE MC_Heap -------------------------------
(* All histories of operations on three catalogues that share memory. *)
EXTENDS Heap
=============================================================================
