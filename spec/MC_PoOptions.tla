----------------------------- MODULE MC_PoOptions -----------------------------
(***************************************************************************)
(* Every configuration of the PO writer on small catalogues: whatever the  *)
(* other options are, switching one on changes only the part it names.     *)
(***************************************************************************)
EXTENDS PoOptions, Ascii
CONSTANT MAX        \* messages beside the header
VARIABLES es, cfg
Hd == [NoEntry EXCEPT !.str = B("Language: es~X-A: b:c~"), !.com = <<B("t")>>]
Bodies == {[NoEntry EXCEPT !.id = B("a"), !.str = B("x"), !.locs = <<[f |-> B("a.go"), l |-> 3]>>],
           [NoEntry EXCEPT !.id = B("f"), !.ctx = B("c"), !.str = B("y"), !.flags = <<FUZZY>>, !.com = <<B("k")>>],
           [NoEntry EXCEPT !.id = B("p"), !.pl = B("ps")],
           [NoEntry EXCEPT !.id = B("q"), !.pl = B("qs"), !.forms = <<[i |-> 0, s |-> B("1")], [i |-> 1, s |-> <<>>]>>],
           [NoEntry EXCEPT !.id = B("o"), !.str = B("z"), !.obs = TRUE, !.flags = <<FUZZY>>, !.locs = <<[f |-> B("b.go"), l |-> 1], [f |-> B("c.go"), l |-> -1]>>]}
Lists == UNION {{s \in [1..n -> Bodies] : \A i, j \in 1..n : i # j => s[i] # s[j]} : n \in 0..MAX}
Catalogues == Lists \union {<<Hd>> \o s : s \in Lists} \union {<<s[1], Hd>> \o Tail(s) : s \in Lists \ {<<>>}}
Cfg0 == [omit |-> FALSE, nol |-> FALSE, cfuzzy |-> FALSE, manage |-> FALSE, hcom |-> FALSE, hfields |-> FALSE, foreign |-> FALSE,
         loc |-> "full", pre |-> <<>>, suf |-> <<>>, title |-> <<>>, holder |-> <<>>, pkg |-> <<>>, hashc |-> FALSE, hc |-> <<Fld(B("Language"), B("xx"))>>]
Cfgs == {[Cfg0 EXCEPT !.omit = a, !.nol = b, !.cfuzzy = c, !.manage = d, !.hfields = e, !.hashc = f, !.loc = l, !.pre = p, !.suf = s] :
            a \in BOOLEAN, b \in BOOLEAN, c \in BOOLEAN, d \in BOOLEAN, e \in BOOLEAN, f \in BOOLEAN,
            l \in {"full", "file", "never"}, p \in {<<>>, B("<")}, s \in {<<>>, B(">")}}
Init == es \in Catalogues /\ cfg = Cfg0
Next == cfg = Cfg0 /\ cfg' \in Cfgs /\ UNCHANGED es
W(c) == Written(es, c)
Map(F(_), s) == [i \in 1..Len(s) |-> F(s[i])]
\* The parts that options name, blotted out.
NoLocs(e) == [e EXCEPT !.locs = <<>>]
NoTexts(e) == IF IsHeader(e) THEN e ELSE [e EXCEPT !.str = <<>>, !.forms = [i \in 1..Len(@) |-> [i |-> @[i].i, s |-> <<>>]]]
IsNoHeader(e) == ~IsHeader(e)
OnlyLocs == \A l \in {"full", "file", "never"}, n \in BOOLEAN : Map(NoLocs, W([cfg EXCEPT !.loc = l, !.nol = n])) = Map(NoLocs, W(cfg))
OnlyTexts == Map(NoTexts, W(cfg)) = Map(NoTexts, W([cfg EXCEPT !.pre = <<>>, !.suf = <<>>]))
OnlyHeader ==
    /\ SelectSeq(W([cfg EXCEPT !.omit = TRUE]), IsNoHeader) = W([cfg EXCEPT !.omit = TRUE])
    /\ \A o, m, h \in BOOLEAN : SelectSeq(W([cfg EXCEPT !.omit = o, !.manage = m, !.hfields = h]), IsNoHeader) = SelectSeq(W(cfg), IsNoHeader)
    /\ Len(SelectSeq(W(cfg), IsHeader)) = (IF cfg.omit \/ IndexIdCtx(es, <<>>, <<>>) = 0 THEN 0 ELSE 1)
\* Commenting out hides the live fuzzy messages and no other.
OnlyFuzzy == LET all == W([cfg EXCEPT !.cfuzzy = FALSE]) IN
    W([cfg EXCEPT !.cfuzzy = TRUE]) = SelectSeq(all, LAMBDA e : e.obs \/ ~IsFuzzy(e))
\* The header fields appear exactly once.
FieldsOnce == LET hs == SelectSeq(W(cfg), IsHeader) IN
    \A i \in 1..Len(hs) : ~cfg.manage \/ HFields(hs[i].str) = (IF ~cfg.hfields THEN <<>> ELSE IF cfg.hashc THEN cfg.hc ELSE HeaderFields(es))
Placeholders == \A i \in 1..Len(W(cfg)) : LET e == W(cfg)[i] IN e.id = B("p") => \A k \in 1..Len(e.forms) : e.forms[k].s = e.id
=============================================================================
