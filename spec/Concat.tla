-------------------------------- MODULE Concat --------------------------------
(***************************************************************************)
(* Concatenating catalogues.  The definitions, in order, are records       *)
(* [file : its name, e : message]; cfg = [first : BOOLEAN, more : Nat,     *)
(* less : Int], where less = -1 stands for no upper limit.                 *)
(***************************************************************************)
EXTENDS Catalog

(**************************** the accumulation *****************************)
Marker(file) == <<35, 45, 35, 45, 35, 45, 35, 45, 35, 32, 32>> \o file \o <<32, 32, 35, 45, 35, 45, 35, 45, 35, 45, 35>>
NL == <<10>>
Conflict(a, b) == a # <<>> /\ b # <<>> /\ a # b
JoinStr(a, b, fa, fb) ==
    IF a = b \/ b = <<>> THEN a ELSE IF a = <<>> THEN b
    ELSE Marker(fa) \o NL \o a \o NL \o Marker(fb) \o NL \o b
Marked(file, c) == IF c = <<>> THEN <<>> ELSE <<Marker(file)>> \o c
JoinComments(a, b, fa, fb) == IF a = b THEN a ELSE Marked(fa, a) \o Marked(fb, b)
FormsOf(e) == IF ~IsPlural(e) /\ e.str # <<>> THEN <<[i |-> 0, s |-> e.str]>> ELSE e.forms
FormAt(fs, i) == LET S == {k \in 1..Len(fs) : fs[k].i = i} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE
\* tr: the first file that translates each form, [i, file]; form 0 is also the singular.
Translator(tr, i) == LET S == {k \in 1..Len(tr) : tr[k].i = i} IN IF S = {} THEN <<>> ELSE tr[CHOOSE k \in S : TRUE].file
AddTranslations(tr, e, file) ==
    FoldLeft(LAMBDA acc, f : IF f.s = <<>> \/ \E k \in 1..Len(acc) : acc[k].i = f.i THEN acc ELSE Append(acc, [i |-> f.i, file |-> file]), tr, FormsOf(e))
JoinForms(a, b, tr, fb) ==
    FoldLeft(LAMBDA acc, f : LET k == FormAt(acc, f.i) IN
        IF k = 0 THEN Append(acc, f) ELSE [acc EXCEPT ![k].s = JoinStr(@, f.s, Translator(tr, f.i), fb)], a, b)
FormConflict(a, b) == \E k \in 1..Len(b) : LET j == FormAt(a, b[k].i) IN j # 0 /\ Conflict(a[j].s, b[k].s)
Union(a, b) == FoldLeft(LAMBDA acc, x : IF \E i \in 1..Len(acc) : acc[i] = x THEN acc ELSE Append(acc, x), a, b)
Combine(a, b, tr, fa, fb) ==
    LET plural == IsPlural(a) \/ IsPlural(b)
        e == [a EXCEPT !.flags = Union(a.flags, b.flags), !.com = JoinComments(a.com, b.com, fa, fb),
                       !.ext = JoinComments(a.ext, b.ext, fa, fb), !.prev = JoinComments(a.prev, b.prev, fa, fb),
                       !.obs = a.obs /\ b.obs, !.pl = IF a.pl = <<>> THEN b.pl ELSE a.pl, !.locs = a.locs \o b.locs,
                       !.str = IF plural THEN <<>> ELSE JoinStr(a.str, b.str, Translator(tr, 0), fb),
                       !.forms = IF plural THEN JoinForms(FormsOf(a), FormsOf(b), tr, fb) ELSE <<>>]
        bad == Conflict(a.pl, b.pl) \/ (IF plural THEN FormConflict(FormsOf(a), FormsOf(b)) ELSE Conflict(a.str, b.str))
    IN IF bad THEN MarkFuzzy(e) ELSE e

\* acc: sequence of [e, file, n, tr] in order of first appearance.
AccIndex(acc, k) == LET S == {i \in 1..Len(acc) : Key(acc[i].e) = k} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
Take(acc, d, cfg) ==
    LET i == AccIndex(acc, Key(d.e)) IN
    IF i = 0 THEN Append(acc, [e |-> d.e, file |-> d.file, n |-> 1, tr |-> AddTranslations(<<>>, d.e, d.file)])
    ELSE [acc EXCEPT ![i] = [e |-> IF cfg.first THEN @.e ELSE Combine(@.e, d.e, @.tr, @.file, d.file), file |-> @.file, n |-> @.n + 1,
                              tr |-> AddTranslations(@.tr, d.e, d.file)]]
Within(n, cfg) == n > cfg.more /\ (cfg.less = -1 \/ n < cfg.less)
Result(acc, cfg) ==
    LET sel == SelectSeq(acc, LAMBDA x : IsHeader(x.e) \/ Within(x.n, cfg)) IN [i \in 1..Len(sel) |-> sel[i].e]

(*********************** what a concatenation must do **********************)
EntriesOf(defs) == [i \in 1..Len(defs) |-> defs[i].e]
KeysInOrder(defs) == FoldLeft(LAMBDA acc, d : IF \E i \in 1..Len(acc) : acc[i] = Key(d.e) THEN acc ELSE Append(acc, Key(d.e)), <<>>, defs)
Defs(defs, k) == SelectSeq(defs, LAMBDA d : Key(d.e) = k)
Selected(defs, cfg) == SelectSeq(KeysInOrder(defs), LAMBDA k : k = <<>> \/ Within(Len(Defs(defs, k)), cfg))
Selects(out, defs, cfg) == [i \in 1..Len(out) |-> Key(out[i])] = Selected(defs, cfg)

\* needle occurs in hay from position at on; the position after it, 0 if it does not.
FindFrom(hay, needle, at) ==
    LET S == {i \in at..(Len(hay) - Len(needle) + 1) : SubSeq(hay, i, i + Len(needle) - 1) = needle} IN
    IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
Holds(hay, needle) == FindFrom(hay, needle, 1) # 0
\* x is a subsequence of y.
Subsequence(x, y) == FoldLeft(LAMBDA k, c : IF k <= Len(x) /\ x[k] = c THEN k + 1 ELSE k, 1, y) = Len(x) + 1
InSeq(x, s) == \E i \in 1..Len(s) : s[i] = x

NonEmpty(S) == S \ {<<>>}
\* v stands in s below a line that names one of the files fs.
Under(s, v, fs) == \E i \in 3..(Len(s) - Len(v) + 1) :
    /\ s[i - 1] = 10 /\ SubSeq(s, i, i + Len(v) - 1) = v
    /\ LET q == SelectLastInSeq(SubSeq(s, 1, i - 2), LAMBDA b : b = 10) IN \E f \in fs : Holds(SubSeq(s, q + 1, i - 2), f)
\* The variants vs[k] that the definitions g[k] hold of one string become s.
StringOk(s, vs, g) == LET V == NonEmpty(Rng(vs)) IN
    CASE V = {} -> s = <<>> [] Cardinality(V) = 1 -> s \in V
      [] OTHER -> \A v \in V : Under(s, v, {g[k].file : k \in {j \in 1..Len(g) : vs[j] = v}})
Clash(vs) == Cardinality(NonEmpty(vs)) > 1
FormVariants(g, i) == [k \in 1..Len(g) |-> LET fs == FormsOf(g[k].e) j == FormAt(FormsOf(g[k].e), i) IN IF j = 0 THEN <<>> ELSE fs[j].s]
Indexes(g) == UNION {{FormsOf(g[k].e)[j].i : j \in 1..Len(FormsOf(g[k].e))} : k \in 1..Len(g)}
PluralGroup(g) == \E k \in 1..Len(g) : IsPlural(g[k].e)
TranslationOk(o, g) ==
    IF PluralGroup(g)
    THEN /\ o.str = <<>>
         /\ {o.forms[k].i : k \in 1..Len(o.forms)} = Indexes(g) /\ Len(o.forms) = Cardinality(Indexes(g))
         /\ \A k \in 1..Len(o.forms) : StringOk(o.forms[k].s, FormVariants(g, o.forms[k].i), g)
    ELSE o.forms = <<>> /\ StringOk(o.str, [k \in 1..Len(g) |-> g[k].e.str], g)
Plurals(g) == {g[k].e.pl : k \in 1..Len(g)}
Clashes(g) ==
    \/ Clash(Plurals(g))
    \/ IF PluralGroup(g) THEN \E i \in Indexes(g) : Clash(Rng(FormVariants(g, i))) ELSE Clash({g[k].e.str : k \in 1..Len(g)})
\* The comment lists cs (of the definitions in g) become c.
CommentsOk(c, cs, g) ==
    IF \A k \in 1..Len(cs) : cs[k] = cs[1] THEN c = cs[1]
    ELSE /\ \A k \in 1..Len(cs) : Subsequence(cs[k], c)
         /\ LET named(i) == \E k \in 1..Len(g) : Holds(c[i], g[k].file) IN
            \A i \in 1..Len(c) : named(i) \/
                IF \E k, j \in 1..Len(g) : \E x \in Rng(cs[k]) : Holds(x, g[j].file) THEN \E k \in 1..Len(cs) : InSeq(c[i], cs[k]) ELSE
                LET J == {j \in 1..(i - 1) : named(j)} IN   \* below the name of a file that has this line
                J # {} /\ \E k \in 1..Len(g) : InSeq(c[i], cs[k]) /\ Holds(c[CHOOSE j \in J : \A x \in J : x <= j], g[k].file)
AllFlags(g) == UNION {Rng(g[k].e.flags) : k \in 1..Len(g)}
CommentsKept(o, g) ==
    /\ CommentsOk(o.com, [k \in 1..Len(g) |-> g[k].e.com], g)
    /\ CommentsOk(o.ext, [k \in 1..Len(g) |-> g[k].e.ext], g)
    /\ CommentsOk(o.prev, [k \in 1..Len(g) |-> g[k].e.prev], g)
FlagsOk(o, g) == Rng(o.flags) = AllFlags(g) \union (IF Clashes(g) THEN {FUZZY} ELSE {})
Place(o, g) ==
    /\ o.id = g[1].e.id /\ o.ctx = g[1].e.ctx
    /\ o.pl \in Plurals(g) /\ (NonEmpty(Plurals(g)) # {} => o.pl # <<>>)
    /\ o.obs = \A k \in 1..Len(g) : g[k].e.obs
LocsOk(o, g) == o.locs = Flat([k \in 1..Len(g) |-> g[k].e.locs])

MessageErrors(o, g, cfg) ==
    IF cfg.first \/ Len(g) = 1 THEN IF o = g[1].e THEN {} ELSE {"not the first definition"}
    ELSE (IF Place(o, g) THEN {} ELSE {"another message"})
         \union (IF TranslationOk(o, g) THEN {} ELSE {"a translation is lost or changed"})
         \union (IF FlagsOk(o, g) THEN {} ELSE {"flags are lost or invented"})
         \union (IF CommentsKept(o, g) THEN {} ELSE {"comments are lost or invented"})
         \union (IF LocsOk(o, g) THEN {} ELSE {"references are lost or changed"})
Errors(out, defs, cfg) ==
    IF ~Selects(out, defs, cfg) THEN {"the selection of messages is wrong"}
    ELSE UNION {MessageErrors(out[i], Defs(defs, Key(out[i])), cfg) : i \in 1..Len(out)}
=============================================================================
