------------------------------- MODULE Catalog -------------------------------
(***************************************************************************)
(* Messages and catalogues.  A message is a record                         *)
(*   [ctx, id, pl, str : byte string,                                      *)
(*    forms : Seq([i : Int, s : byte string]),     plural forms            *)
(*    flags, com, ext, prev : Seq(byte string),                            *)
(*    locs : Seq([f : byte string, l : Int]),      source references       *)
(*    obs : BOOLEAN]                                                       *)
(* and a catalogue a sequence of messages.                                 *)
(***************************************************************************)
EXTENDS Text

FUZZY == <<102, 117, 122, 122, 121>>

NoEntry == [ctx |-> <<>>, id |-> <<>>, pl |-> <<>>, str |-> <<>>, forms |-> <<>>, flags |-> <<>>,
            com |-> <<>>, ext |-> <<>>, prev |-> <<>>, locs |-> <<>>, obs |-> FALSE]

Key(e) == IF e.ctx = <<>> THEN e.id ELSE e.ctx \o <<4>> \o e.id
IsHeader(e) == e.id = <<>> /\ e.ctx = <<>>
IsPlural(e) == e.pl # <<>> \/ e.forms # <<>>
IsFuzzy(e) == \E i \in 1..Len(e.flags) : e.flags[i] = FUZZY
Translated(e) == e.str # <<>> \/ \E i \in 1..Len(e.forms) : e.forms[i].s # <<>>
\* A plural message without translations is written with its own text in their place.
Filled(e) == IF e.pl # <<>> /\ e.forms = <<>> THEN [e EXCEPT !.forms = <<[i |-> 0, s |-> e.id], [i |-> 1, s |-> e.id]>>] ELSE e
Unfilled(e) == IF e.pl # <<>> /\ e = Filled([e EXCEPT !.forms = <<>>]) THEN [e EXCEPT !.forms = <<>>] ELSE e
MarkFuzzy(e) == IF IsFuzzy(e) THEN e ELSE [e EXCEPT !.flags = Append(@, FUZZY)]

Live(es) == SelectSeq(es, LAMBDA e : ~e.obs)
Obsolete(es) == SelectSeq(es, LAMBDA e : e.obs)
Keys(es) == {Key(es[i]) : i \in 1..Len(es)}

IndexKey(es, k) ==
    LET S == {i \in 1..Len(es) : Key(es[i]) = k} IN
    IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
IndexIdCtx(es, id, ctx) ==
    LET S == {i \in 1..Len(es) : es[i].id = id /\ es[i].ctx = ctx} IN
    IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
At(es, k) == es[IndexKey(es, k)]
RemoveIdx(es, i) == SubSeq(es, 1, i - 1) \o SubSeq(es, i + 1, Len(es))
CutHeader(es) == LET i == IndexIdCtx(es, <<>>, <<>>) IN IF i = 0 THEN es ELSE RemoveIdx(es, i)

Distinct(es) == \A i, j \in 1..Len(es) : i # j => Key(es[i]) # Key(es[j])

\* Keep one message per key, at its first place, combining with Merge(first, later).
Resolve(es, Merge(_, _)) ==
    FoldLeft(LAMBDA acc, e :
        LET i == IndexKey(acc, Key(e)) IN
        IF i = 0 THEN Append(acc, e) ELSE [acc EXCEPT ![i] = Merge(@, e)], <<>>, es)

\* Cleaning keeps the first message with all references; a message that was only found
\* without plural and translation takes those of the next one.
CleanMerge(a, b) ==
    LET c == [a EXCEPT !.locs = @ \o b.locs] IN
    IF ~IsPlural(a) /\ a.str = <<>>
    THEN [c EXCEPT !.str = b.str, !.pl = b.pl, !.forms = b.forms] ELSE c
CleanDuplicates(es) == Resolve(es, CleanMerge)
=============================================================================
