-------------------------------- MODULE Order --------------------------------
(***************************************************************************)
(* The orders that messages, plural forms and references can be sorted by. *)
(* Every comparison gives -1, 0 or 1.                                      *)
(***************************************************************************)
EXTENDS Catalog

Num(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
Bool(a, b) == Num(IF a THEN 1 ELSE 0, IF b THEN 1 ELSE 0)
\* Lists element by element, the shorter one first.
CmpList(a, b, C(_, _)) ==
    LET n == Min2(Len(a), Len(b))
        d == SelectInSeq([k \in 1..n |-> C(a[k], b[k])], LAMBDA x : x # 0)
    IN IF d # 0 THEN C(a[d], b[d]) ELSE Num(Len(a), Len(b))

LocByFile(a, b) == Lex(CleanPath(a.f), CleanPath(b.f))
LocByLine(a, b) == Num(a.l, b.l)
CmpLoc(a, b) == IF LocByFile(a, b) # 0 THEN LocByFile(a, b) ELSE LocByLine(a, b)
FormByID(a, b) == Num(a.i, b.i)
FormByStr(a, b) == Lex(a.s, b.s)
CmpForm(a, b) == IF FormByID(a, b) # 0 THEN FormByID(a, b) ELSE FormByStr(a, b)

ByObsolete(a, b) == Bool(a.obs, b.obs)
ByFuzzy(a, b) == Bool(IsFuzzy(a), IsFuzzy(b))
ByLocation(a, b) == CmpList(a.locs, b.locs, CmpLoc)
ByFile(a, b) == CmpList(a.locs, b.locs, LocByFile)
ByLine(a, b) == CmpList(a.locs, b.locs, LocByLine)
ByID(a, b) == Lex(Key(a), Key(b))
ByStr(a, b) == LET f == CmpList(a.forms, b.forms, FormByStr) IN IF f # 0 THEN f ELSE Lex(a.str, b.str)
ByAll(a, b) == IF ByObsolete(a, b) # 0 THEN ByObsolete(a, b)
               ELSE IF ByFuzzy(a, b) # 0 THEN ByFuzzy(a, b)
               ELSE IF ByLocation(a, b) # 0 THEN ByLocation(a, b) ELSE ByID(a, b)

EntryOrders == {"all", "obsolete", "fuzzy", "location", "file", "line", "id", "str"}
CmpEntry(o, a, b) == CASE o = "all" -> ByAll(a, b) [] o = "obsolete" -> ByObsolete(a, b) [] o = "fuzzy" -> ByFuzzy(a, b)
    [] o = "location" -> ByLocation(a, b) [] o = "file" -> ByFile(a, b) [] o = "line" -> ByLine(a, b)
    [] o = "id" -> ByID(a, b) [] o = "str" -> ByStr(a, b)
LocOrders == {"all", "file", "line"}
CmpLocBy(o, a, b) == CASE o = "all" -> CmpLoc(a, b) [] o = "file" -> LocByFile(a, b) [] o = "line" -> LocByLine(a, b)
FormOrders == {"all", "id", "str"}
CmpFormBy(o, a, b) == CASE o = "all" -> CmpForm(a, b) [] o = "id" -> FormByID(a, b) [] o = "str" -> FormByStr(a, b)

Ascending(s, C(_, _)) == \A k \in 1..(Len(s) - 1) : C(s[k], s[k + 1]) <= 0
SameBag(a, b) ==
    /\ Len(a) = Len(b)
    /\ \A i \in 1..Len(a) : Cardinality({k \in 1..Len(a) : a[k] = a[i]}) = Cardinality({k \in 1..Len(b) : b[k] = a[i]})
=============================================================================
