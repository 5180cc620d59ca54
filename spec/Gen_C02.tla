------------------------------- MODULE Gen_C02 -------------------------------
(* Texts whose meaning is known: every catalogue of PoCases in its layouts, *)
(* and catalogues with headers, contexts without an id, duplicates and     *)
(* obsolete messages read in every combination of the reader's options.    *)
EXTENDS PoCases, Json, CSV, IOUtils
VARIABLES es, y, n, opt
CONSTANT ALL
Blank == [nl |-> <<NL>>, final |-> TRUE, indent |-> FALSE, gap |-> 1, split |-> "whole", many |-> TRUE,
          order |-> <<"com", "ext", "loc", "flag", "prev">>, oct |-> FALSE]
Big == <<Header, Full, ObsFull, Plural, ObsPlural, Control>>
Chosen(c, z) == ALL \/ c = Big \/ (z.many = z.oct /\ z.final = z.indent /\ z.gap = (IF z.final THEN 0 ELSE 2))
EmptyToo == [Empty EXCEPT !.str = T(121), !.ext = <<T(122)>>]
PlainToo == [Plain EXCEPT !.str = T(99), !.locs = <<[f |-> T(102), l |-> 3]>>]
Mixed == {<<Header, Empty, Plain>>, <<Empty, Header, ObsPlain>>, <<EmptyToo, Full, ObsFull>>, <<Plain, PlainToo, Header>>, <<Full, Header, Plain, PlainToo, ObsPlain>>, <<ObsFull, Plural>>,
          <<Plain, [PlainToo EXCEPT !.obs = TRUE]>>, Big}
Options == [marker : {<<TILDE>>}, clean : BOOLEAN, obsolete : BOOLEAN, skip : BOOLEAN, nocom : BOOLEAN, noall : BOOLEAN]
Strip(e) == [e EXCEPT !.com = <<>>, !.ext = <<>>, !.prev = <<>>, !.locs = <<>>, !.flags = <<>>]
\* The messages that the options leave of those in the text.
Optioned(ms, o) ==
    LET live == SelectSeq(ms, LAMBDA e : ~e.obs)
        read == IF o.noall THEN [i \in 1..Len(live) |-> Strip(live[i])] ELSE IF o.obsolete THEN ms ELSE live
        bare == IF o.nocom THEN DropComments(read) ELSE read
        kept == IF o.skip THEN CutHeader(bare) ELSE bare
    IN IF o.clean THEN CleanDuplicates(kept) ELSE kept
Init == es \in Catalogues \union Mixed /\ y = Blank /\ n = 0 /\ opt = DefaultOpt
Next == \/ n = 0 /\ n' = 1 /\ es \in Catalogues /\ y' \in {z \in Layouts : Chosen(es, z)} /\ UNCHANGED <<es, opt>>
        \/ n = 0 /\ n' = 1 /\ es \in Mixed /\ opt' \in Options /\ UNCHANGED <<es, y>>
Emit == n = 1 => CSVWrite("%1$s", <<ToJson([text |-> Write(es, y), opt |-> opt, r |-> Len(es) + y.gap, has |-> TRUE, want |-> Optioned(Meaning(es), opt)])>>, IOEnv.CASES)
=============================================================================
