-------------------------------- MODULE CatOps --------------------------------
(***************************************************************************)
(* Operations on catalogues: duplicates, lookups, updates, filters and     *)
(* equality.  Positions are counted from 0 here (-1: absent), as the       *)
(* library does.                                                           *)
(***************************************************************************)
EXTENDS Catalog

(******************************* duplicates ********************************)
FirstOf(es, i) == CHOOSE j \in 1..i : Key(es[j]) = Key(es[i]) /\ \A k \in 1..(j - 1) : Key(es[k]) # Key(es[i])
Later(es) == SelectSeq([i \in 1..Len(es) |-> i], LAMBDA i : FirstOf(es, i) # i)
DuplicateReport(es) == [n \in 1..Len(Later(es)) |->
    LET i == Later(es)[n] IN [at |-> i - 1, first |-> FirstOf(es, i) - 1, key |-> Key(es[i])]]
\* A message with a singular translation and plural forms is invalid.
Invalid(e) == e.str # <<>> /\ e.forms # <<>>
InvalidReport(es) == SelectSeq([i \in 1..Len(es) |-> i], LAMBDA i : Invalid(es[i]))

FirstKeys(es) == LET firsts == SelectSeq([i \in 1..Len(es) |-> i], LAMBDA i : FirstOf(es, i) = i) IN
                 [n \in 1..Len(firsts) |-> Key(es[firsts[n]])]
Group(es, k) == SelectSeq(es, LAMBDA e : Key(e) = k)
AllLocs(g) == Flat([i \in 1..Len(g) |-> g[i].locs])
Translation(e) == [str |-> e.str, forms |-> e.forms]
\* The translation as the given message would hold it.
AsPlural(t) == IF t.str # <<>> /\ t.forms = <<>> THEN [str |-> <<>>, forms |-> <<[i |-> 0, s |-> t.str]>>] ELSE t

\* What a resolved message r may be, for the messages g that share its key.
FromGroup(r, g) ==
    /\ \E i \in 1..Len(g) : r.flags = g[i].flags
    /\ \E i \in 1..Len(g) : r.com = g[i].com
    /\ \E i \in 1..Len(g) : r.ext = g[i].ext
    /\ \E i \in 1..Len(g) : r.prev = g[i].prev
    /\ r.obs = \A i \in 1..Len(g) : g[i].obs
    /\ \E i \in 1..Len(g) : r.pl = g[i].pl
    /\ \E i \in 1..Len(g) : Translation(r) \in {Translation(g[i]), AsPlural(Translation(g[i]))}
Resolved(r, g) ==
    IF Len(g) = 1 THEN r = g[1]
    ELSE /\ r.id = g[1].id /\ r.ctx = g[1].ctx
         /\ r.locs = AllLocs(g)
         /\ FromGroup(r, g)
         /\ (\E i \in 1..Len(g) : Translated(g[i])) => Translated(r)
         /\ (\E i \in 1..Len(g) : g[i].pl # <<>>) => r.pl # <<>>
         /\ ~Invalid(r) \/ \E i \in 1..Len(g) : Invalid(g[i])

(*************************** the ordered map *******************************)
Found(es, i) == i - 1
SetAt(es, id, ctx, e) == LET i == IndexIdCtx(es, id, ctx) IN IF i = 0 THEN Append(es, e) ELSE [es EXCEPT ![i] = e]
StrAt(es, i) == IF i = 0 THEN <<>> ELSE es[i].str
NoObsolete(es) == Live(es)
NoFuzzy(es) == SelectSeq(es, LAMBDA e : ~IsFuzzy(e))
NoEmpties(es) == SelectSeq(es, LAMBDA e : e.id # <<>>)

\* One operation o = [op, id, ctx, e] on the catalogue es: the next catalogue and what the
\* operation says (a number, a truth value or a text).
Nothing == [n |-> 0, b |-> FALSE, s |-> <<>>]
Apply(es, o) ==
    LET idx == IndexIdCtx(es, o.id, o.ctx)
        key == Key([NoEntry EXCEPT !.id = o.id, !.ctx = o.ctx])
        kidx == IndexKey(es, key)
        r(x, y) == [es |-> x, r |-> y]
    IN CASE o.op = "set" -> r(SetAt(es, o.id, o.ctx, o.e), Nothing)
         [] o.op = "index" -> r(es, [Nothing EXCEPT !.n = idx - 1])
         [] o.op = "indexuid" -> r(es, [Nothing EXCEPT !.n = kidx - 1])
         [] o.op = "contains" -> r(es, [Nothing EXCEPT !.b = kidx # 0])
         [] o.op = "load" -> r(es, [Nothing EXCEPT !.s = StrAt(es, idx)])
         [] o.op = "loaduid" -> r(es, [Nothing EXCEPT !.s = StrAt(es, kidx)])
         [] o.op = "hasheader" -> r(es, [Nothing EXCEPT !.b = IndexIdCtx(es, <<>>, <<>>) # 0])
         [] o.op = "cutheader" -> r(CutHeader(es), Nothing)
         [] o.op = "noobsolete" -> r(NoObsolete(es), Nothing)
         [] o.op = "nofuzzy" -> r(NoFuzzy(es), Nothing)
         [] o.op = "noempties" -> r(NoEmpties(es), Nothing)
         [] o.op = "clean" -> r(CleanDuplicates(es), Nothing)
         [] o.op = "dups" -> r(es, [Nothing EXCEPT !.b = ~Distinct(es)])
Ops == {"set", "index", "indexuid", "contains", "load", "loaduid", "hasheader", "cutheader", "noobsolete", "nofuzzy", "noempties", "clean", "dups"}
Filters == {"cutheader", "noobsolete", "nofuzzy", "noempties", "clean"}

(******************************** equality *********************************)
FormLess(a, b) == a.i < b.i \/ (a.i = b.i /\ Lex(a.s, b.s) < 0)
SortForms(fs) == SortSeq(fs, FormLess)
SameMessage(a, b) ==
    /\ a.id = b.id /\ a.ctx = b.ctx /\ a.pl = b.pl /\ a.str = b.str
    /\ SortForms(a.forms) = SortForms(b.forms)
    /\ a.flags = b.flags /\ a.obs = b.obs
=============================================================================
