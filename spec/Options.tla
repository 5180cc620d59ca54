------------------------------- MODULE Options -------------------------------
(***************************************************************************)
(* The configuration of a parser or compiler: a function cfg from fields   *)
(* to values and the stack of configurations that restoring goes back to.  *)
(* An option is [f |-> field, v |-> value], or, with f = "*", replaces     *)
(* everything by the configuration v.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

With(cfg, o) == IF o.f = "*" THEN o.v ELSE [cfg EXCEPT ![o.f] = o.v]
Applied(cfg, opts) == FoldLeft(With, cfg, opts)

\* s = [cfg, stack]
Apply(s, opts) == [cfg |-> Applied(s.cfg, opts), stack |-> Append(s.stack, s.cfg)]
Restore(s) == IF s.stack = <<>> THEN s ELSE [cfg |-> s.stack[Len(s.stack)], stack |-> SubSeq(s.stack, 1, Len(s.stack) - 1)]
Poke(s, o) == [s EXCEPT !.cfg = With(@, o)]
\* A run with temporary options works with this configuration and leaves s as it is.
Effective(s, opts) == Applied(s.cfg, opts)
=============================================================================
