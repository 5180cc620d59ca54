-------------------------------- MODULE Merge --------------------------------
(***************************************************************************)
(* Merging an existing catalogue (def) with a reference (ref), both        *)
(* without duplicates and ref without obsolete messages.                   *)
(* cfg = [fuzzy, keep, sort : BOOLEAN, mode : name of an order].           *)
(* Sim(d, r) is the similarity of two messages in percent.                 *)
(***************************************************************************)
EXTENDS Order, Header

Msg(es) == SelectSeq(es, LAMBDA e : ~IsHeader(e))
Has(es, k) == IndexKey(es, k) # 0
Texts(e) == {e.str} \union {e.forms[i].s : i \in 1..Len(e.forms)}
FlagsKept(o, d) == \A i \in 1..Len(d.flags) : \E k \in 1..Len(o.flags) : o.flags[k] = d.flags[i]

(************************** the steps of a merge ***************************)
Adapt(t, s) ==
    CASE IsPlural(t) /\ IsPlural(s) -> [t EXCEPT !.forms = s.forms]
      [] IsPlural(t) /\ ~IsPlural(s) -> [t EXCEPT !.forms = [(IF @ = <<>> THEN <<[i |-> 0, s |-> <<>>]>> ELSE @) EXCEPT ![1].s = s.str]]
      [] ~IsPlural(t) /\ IsPlural(s) -> [t EXCEPT !.str = IF s.forms = <<>> THEN @ ELSE s.forms[1].s]
      [] OTHER -> [t EXCEPT !.str = s.str]
Adopt(d, r) ==
    LET e == [d EXCEPT !.obs = FALSE, !.id = r.id, !.ctx = r.ctx, !.pl = r.pl, !.locs = r.locs, !.ext = r.ext] IN
    IF IsPlural(d) = IsPlural(r) THEN e
    ELSE LET f == [e EXCEPT !.str = <<>>, !.forms = r.forms] IN
         IF Translated(d) THEN MarkFuzzy(Adapt(f, d)) ELSE f
Placeholders(r, n) == IF IsPlural(r) /\ r.forms = <<>> THEN [r EXCEPT !.forms = [i \in 1..n |-> [i |-> i - 1, s |-> r.id]]] ELSE r

\* What may become of the existing message d, when now is the catalogue so far.
DefSteps(d, now, ref, cfg, Sim(_, _)) ==
    IF IsHeader(d) THEN {d}
    ELSE IF Has(ref, Key(d)) THEN {Adopt(d, At(ref, Key(d)))}
    ELSE IF cfg.fuzzy
    THEN {[d EXCEPT !.obs = TRUE]} \union
         {MarkFuzzy(Adopt(d, r)) : r \in {x \in Rng(Msg(ref)) : Sim(d, x) >= 50 /\ Translated(d) /\ IsPlural(x) = IsPlural(d) /\ ~Has(now, Key(x))}}
    ELSE IF cfg.keep THEN {MarkFuzzy(d)} ELSE {[d EXCEPT !.obs = TRUE]}
\* What may be added for the reference message r ({<<>>}: nothing).
RefSteps(r, now, old, cfg, n, Sim(_, _)) ==
    IF IsHeader(r) \/ Has(now, Key(r)) THEN {<<>>}
    ELSE IF cfg.fuzzy
    THEN {<<r>>} \union {<<MarkFuzzy(Adapt(r, d))>> : d \in {x \in Rng(Msg(old)) : Translated(x) /\ Sim(x, r) >= 50}}
    ELSE {<<Placeholders(r, n)>>}

(************************** what a merge must do ***************************)
Covers(out, ref) == \A i \in 1..Len(ref) : LET r == ref[i] IN
    IsHeader(r) \/ (/\ Has(out, Key(r))
                    /\ LET o == At(out, Key(r)) IN o.id = r.id /\ o.ctx = r.ctx /\ ~o.obs /\ o.pl = r.pl /\ o.locs = r.locs /\ o.ext = r.ext)
NoMore(out, def, ref) == Distinct(out) /\ Keys(out) \subseteq Keys(def) \union Keys(ref)
SameTranslation(o, d) == o.str = d.str /\ o.forms = d.forms
\* The exact match of d in the reference.
ExactOk(o, d) ==
    IF IsPlural(o) = IsPlural(d) THEN SameTranslation(o, d) /\ o.flags = d.flags /\ o.com = d.com
    ELSE /\ FlagsKept(o, d) /\ o.com = d.com
         /\ Translated(d) => (/\ IsFuzzy(o)
                              /\ \/ (Texts(o) \intersect Texts(d)) \ {<<>>} # {}
                                 \/ IsPlural(d) /\ d.forms # <<>> /\ d.forms[1].s = <<>>)
KeepsExact(out, def, ref) == \A i \in 1..Len(def) : LET d == def[i] IN
    (~IsHeader(d) /\ Has(ref, Key(d)) /\ Has(out, Key(d))) => ExactOk(At(out, Key(d)), d)
Kept(o, d, cfg) ==
    /\ SameTranslation(o, d) /\ o.pl = d.pl /\ o.com = d.com /\ FlagsKept(o, d)
    /\ IF ~cfg.fuzzy /\ cfg.keep THEN IsFuzzy(o) ELSE o.obs
Reused(out, d, def, ref) == \E i \in 1..Len(out) : LET o == out[i] IN
    ~o.obs /\ IsFuzzy(o) /\ Has(ref, Key(o)) /\ ~Has(def, Key(o)) /\ SameTranslation(o, d)
DropsNothing(out, def, ref, cfg) == \A i \in 1..Len(def) : LET d == def[i] IN
    (IsHeader(d) \/ Has(ref, Key(d))) \/
    (IF Has(out, Key(d)) THEN Kept(At(out, Key(d)), d, cfg)
     ELSE ~Translated(d) \/ (cfg.fuzzy /\ Reused(out, d, def, ref)))
KeepsHeader(out, def) == LET i == IndexIdCtx(def, <<>>, <<>>) IN
    i # 0 => Has(out, <<>>) /\ At(out, <<>>) = def[i]
SortedAs(out, cfg) == ~cfg.sort \/ Ascending(out, LAMBDA a, b : CmpEntry(cfg.mode, a, b))

\* Guesses: where the translation of a message comes from that is not in def.
GuessedFrom(o, d) ==
    IF IsPlural(o) THEN IF IsPlural(d) THEN o.forms = d.forms ELSE o.forms # <<>> /\ o.forms[1].s = d.str
    ELSE IF IsPlural(d) THEN d.forms # <<>> /\ o.str = d.forms[1].s ELSE o.str = d.str
Guesses(out, def, ref, cfg, n, Sim(_, _)) == \A i \in 1..Len(out) : LET o == out[i] IN
    (IsHeader(o) \/ Has(def, Key(o)) \/ ~Has(ref, Key(o))) \/
    LET r == At(ref, Key(o)) IN
    SameTranslation(o, r) \/ (~cfg.fuzzy /\ SameTranslation(o, Placeholders(r, n))) \/
    /\ cfg.fuzzy /\ IsFuzzy(o)
    /\ \E k \in 1..Len(def) : LET d == def[k] IN ~IsHeader(d) /\ Translated(d) /\ Sim(d, r) >= 50 /\ GuessedFrom(o, d)
=============================================================================
