------------------------------ MODULE PoOptions ------------------------------
(***************************************************************************)
(* What the options of the PO compiler do to the catalogue that is         *)
(* written: the text must mean Written(es, cfg, ...).  cfg is              *)
(*   [omit, nol, cfuzzy, manage, hcom, hfields, foreign : BOOLEAN,         *)
(*    loc : "full" "file" "never" "", pre, suf, title, holder, pkg : text, *)
(*    hashc : BOOLEAN, hc : fields of a header configuration].             *)
(***************************************************************************)
EXTENDS PoText, Header


Located(e, cfg) ==
    [e EXCEPT !.locs = IF cfg.nol \/ cfg.loc = "never" THEN <<>>
                       ELSE IF cfg.loc = "file" THEN [i \in 1..Len(@) |-> [f |-> @[i].f, l |-> -1]] ELSE @]
Affixed(e, cfg) ==
    IF IsHeader(e) THEN e
    ELSE IF IsPlural(e) THEN [e EXCEPT !.forms = [i \in 1..Len(@) |-> [i |-> @[i].i, s |-> cfg.pre \o @[i].s \o cfg.suf]]]
    ELSE [e EXCEPT !.str = cfg.pre \o @ \o cfg.suf]

Managed(es, cfg) == cfg.manage /\ ~cfg.omit /\ IndexIdCtx(es, <<>>, <<>>) # 0
ManagedHeader(es, cfg) ==
    LET fs == IF cfg.hashc THEN cfg.hc ELSE HeaderFields(es) IN
    [NoEntry EXCEPT !.str = IF cfg.hfields THEN FieldsText(fs) ELSE <<>>]

Written(es, cfg) ==
    LET body == IF cfg.omit \/ Managed(es, cfg) THEN CutHeader(es) ELSE es
        kept == IF cfg.cfuzzy THEN SelectSeq(body, LAMBDA e : e.obs \/ ~IsFuzzy(e)) ELSE body
        done == [i \in 1..Len(kept) |-> Filled(Affixed(Located(kept[i], cfg), cfg))]
        all == IF Managed(es, cfg) THEN <<ManagedHeader(es, cfg)>> \o done ELSE done
    IN Live(all) \o Obsolete(all)

\* Translator comments: those of commented-out messages end up before the message that
\* follows, and a managed header has comments of its own.
NoCom(es) == [i \in 1..Len(es) |-> [es[i] EXCEPT !.com = <<>>]]
IsSuffix2(a, b) == Len(a) <= Len(b) /\ SubSeq(b, Len(b) - Len(a) + 1, Len(b)) = a
SameMessages(got, want, cfg) ==
    IF cfg.cfuzzy
    THEN /\ NoCom(got) = NoCom(want)
         /\ \A i \in 1..Len(want) : IsSuffix2(want[i].com, got[i].com)
    ELSE IF cfg.manage /\ cfg.hcom /\ want # <<>> /\ IsHeader(want[1])
    THEN /\ Len(got) > 0 /\ [got[1] EXCEPT !.com = <<>>] = want[1]
         /\ SubSeq(got, 2, Len(got)) = SubSeq(want, 2, Len(want))
    ELSE got = want
=============================================================================
