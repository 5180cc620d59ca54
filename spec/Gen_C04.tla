------------------------------- MODULE Gen_C04 -------------------------------
(* The configurations of MC_PoOptions on chosen catalogues as cases for the real code. *)
EXTENDS MC_PoOptions, CSV, Json, IOUtils
CONSTANT FEW
All == LET s == SetToSeq(Bodies) IN s
Wanted == {<<Hd>> \o All} \union (IF FEW THEN {} ELSE {<<All[1], Hd>> \o Tail(All), All, <<Hd>>, <<All[1]>>, <<>>})
GInit == es \in Wanted /\ cfg = Cfg0
Bit(b) == IF b THEN 1 ELSE 0
Emit == (cfg # Cfg0 /\ (FEW => ~cfg.hashc)) =>
    CSVWrite("%1$s", <<ToJson([es |-> es, cfg |-> cfg, wrap |-> cfg.pre = <<>>, marker |-> IF cfg.suf = <<>> THEN <<126>> ELSE <<33>>,
                               hl |-> IF cfg.omit THEN "default" ELSE "none", style |-> 0,
                               how |-> 1 + Bit(cfg.nol) + 2 * Bit(cfg.cfuzzy) + 4 * Bit(cfg.hfields) + 8 * Bit(cfg.manage), w |-> Bit(cfg.nol) + 2 * Bit(cfg.manage)])>>, IOEnv.CASES)
=============================================================================
