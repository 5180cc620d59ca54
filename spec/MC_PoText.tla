------------------------------ MODULE MC_PoText ------------------------------
(* Every layout of every catalogue means the catalogue. *)
EXTENDS PoCases
VARIABLES es, y
Blank == [nl |-> <<NL>>, final |-> TRUE, indent |-> FALSE, gap |-> 1, split |-> "whole", many |-> TRUE,
          order |-> <<"com", "ext", "loc", "flag", "prev">>, oct |-> FALSE]
Init == es \in Catalogues /\ y = Blank
Next == y = Blank /\ y' \in Layouts \ {Blank} /\ UNCHANGED es
LayoutIsFree == LET r == Read(Write(es, y), DefaultOpt) IN r.st = "ok" /\ r.es = CleanDuplicates(Meaning(es))
\* A message cut short is not a message: what is left of the text is noticed or means less.
TruncationIsSeen ==
    LET t == Write(es, y) r == Read(SubSeq(t, 1, Len(t) - 1), DefaultOpt) IN
    (es # <<>> /\ ~y.final) => r.st # "ok"
=============================================================================
