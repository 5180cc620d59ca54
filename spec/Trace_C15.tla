------------------------------ MODULE Trace_C15 ------------------------------
(***************************************************************************)
(* C15: concatenating selects by count and loses no translation.           *)
(* in: defs, cfg   out: out                                                *)
(***************************************************************************)
EXTENDS Concat, TraceRun
Check(r) == Errors(r.out.out, r.in.defs, r.in.cfg)
Accepted == Judge(Check)
=============================================================================
