------------------------------- MODULE Gen_C15 -------------------------------
(* Sequences of definitions as cases for the real code. *)
EXTENDS MC_Concat, CSV, Json, IOUtils
Plain == \A i \in 1..Len(defs) : defs[i].e.com = <<>>
Wanted == \/ cfg = [first |-> FALSE, more |-> 0, less |-> -1]
          \/ cfg.less # 3 /\ Plain
Emit == Wanted => CSVWrite("%1$s", <<ToJson([defs |-> defs, cfg |-> cfg, r |-> Len(defs)])>>, IOEnv.CASES)
=============================================================================
