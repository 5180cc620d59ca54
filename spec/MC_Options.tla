----------------------------- MODULE MC_Options -----------------------------
(***************************************************************************)
(* The way configurations are kept: each holds its predecessor, so that a  *)
(* configuration is a chain (the current one first), options may replace   *)
(* the whole chain by a saved one, and a temporary run applies, runs and   *)
(* restores.  The chain must always mirror the stack of spec/Options.tla,  *)
(* and runs may be nested.                                                 *)
(***************************************************************************)
EXTENDS Options
CONSTANTS DEPTH, RUNS
VARIABLES s,        \* the specification
          chain,    \* the implementation: <<cfg, its predecessor, ...>>
          saved,    \* a configuration value (with its chain) that the user keeps
          open      \* temporary runs that have begun: what s was before
vars == <<s, chain, saved, open>>
Fields == {"a", "b"}
Values == {0, 1}
Cfgs == [Fields -> Values]
Opts == {<<[f |-> f, v |-> v]>> : f \in Fields, v \in Values} \union {<<>>}
        \union {<<[f |-> "a", v |-> 1], [f |-> "b", v |-> v]>> : v \in Values}
Zero == [f \in Fields |-> 0]
Init == s = [cfg |-> Zero, stack |-> <<>>] /\ chain = <<Zero>> /\ saved = <<Zero>> /\ open = <<>>
\* Applying: remember the whole value, let options work on it, then attach the memory.
ImplApply(c, opts) == <<Applied(c[1], opts)>> \o c
ImplReplace(c, n, opts) == <<Applied(n[1], opts)>> \o c
ImplRestore(c) == IF Len(c) = 1 THEN c ELSE Tail(c)
Replaced(opts) == <<[f |-> "*", v |-> saved[1]]>> \o opts
DoApply == Len(chain) < DEPTH /\ \E o \in Opts, r \in BOOLEAN :
    /\ s' = Apply(s, IF r THEN Replaced(o) ELSE o)
    /\ chain' = IF r THEN ImplReplace(chain, saved, o) ELSE ImplApply(chain, o)
    /\ UNCHANGED <<saved, open>>
DoRestore == open = <<>> /\ s' = Restore(s) /\ chain' = ImplRestore(chain) /\ UNCHANGED <<saved, open>>
DoPoke == \E f \in Fields, v \in Values : s' = Poke(s, [f |-> f, v |-> v]) /\ chain' = [chain EXCEPT ![1][f] = v] /\ UNCHANGED <<saved, open>>
DoSave == saved' = chain /\ UNCHANGED <<s, chain, open>>
\* A temporary run is an application that ends with a restore.
Begin == Len(open) < RUNS /\ Len(chain) < DEPTH /\ \E o \in Opts, r \in BOOLEAN :
    /\ open' = Append(open, s)
    /\ s' = Apply(s, IF r THEN Replaced(o) ELSE o)
    /\ chain' = IF r THEN ImplReplace(chain, saved, o) ELSE ImplApply(chain, o)
    /\ UNCHANGED saved
End == /\ open # <<>>
       /\ s' = Restore(s) /\ chain' = ImplRestore(chain)
       /\ open' = SubSeq(open, 1, Len(open) - 1) /\ UNCHANGED saved
Next == DoRestore \/ DoSave \/ (open = <<>> /\ (DoPoke \/ DoApply)) \/ Begin \/ End
Spec == Init /\ [][Next]_vars
Mirrors == chain = <<s.cfg>> \o Reverse(s.stack)
\* When a temporary run ends everything is as before it.
Temporary == [][End => s' = open[Len(open)]]_vars
=============================================================================
