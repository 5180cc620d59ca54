------------------------------- MODULE Gen_C01 -------------------------------
(***************************************************************************)
(* Every sequence of messages of the most different shapes: what stands    *)
(* around one must not become part of another.                             *)
(***************************************************************************)
EXTENDS Catalog, Ascii, CSV, Json, IOUtils, TLC
CONSTANTS MAX, WAYS
VARIABLES c
Fo(i, s) == [i |-> i, s |-> B(s)]
Lo(f, l) == [f |-> B(f), l |-> l]
S == [NoEntry EXCEPT !.id = B("s"), !.str = B("x")]
P == [NoEntry EXCEPT !.id = B("p"), !.pl = B("ps")]
Shapes == <<
    S, [S EXCEPT !.str = <<>>], [S EXCEPT !.com = <<B("c"), B("d")>>], [S EXCEPT !.ext = <<B("e")>>, !.locs = <<Lo("a.go", 1), Lo("b.go", -1), Lo("b.go", 2)>>],
    [S EXCEPT !.prev = <<B("msgid \"old\"")>>, !.flags = <<FUZZY>>], [S EXCEPT !.flags = <<B("c-format"), B("no-wrap")>>, !.ctx = B("k")],
    [S EXCEPT !.str = <<10, 97, 10, 10>>, !.ctx = <<34>>], [S EXCEPT !.obs = TRUE], [S EXCEPT !.obs = TRUE, !.com = <<B("c")>>, !.locs = <<Lo("a.go", 1)>>],
    [S EXCEPT !.obs = TRUE, !.prev = <<B("msgid \"old\"")>>, !.flags = <<FUZZY>>, !.ctx = B("k"), !.str = <<97, 10, 98>>],
    P, [P EXCEPT !.forms = <<Fo(0, "a")>>], [P EXCEPT !.forms = <<Fo(0, ""), Fo(1, "b"), Fo(2, "")>>, !.ctx = B("k")],
    [P EXCEPT !.obs = TRUE, !.forms = <<Fo(1, "b"), Fo(0, "a")>>, !.ext = <<B("e")>>], [P EXCEPT !.id = <<10>>, !.pl = <<34, 10>>, !.forms = <<Fo(0, "a"), Fo(1, "b")>>],
    [NoEntry EXCEPT !.str = B("Language: x~")], [NoEntry EXCEPT !.str = B("Language: x~"), !.flags = <<FUZZY>>, !.com = <<B("title")>>], [NoEntry EXCEPT !.ctx = B("k"), !.str = B("y")]>>
\* Ids are made different by the place (the header keeps its own).
Put(k, i) == LET e == Shapes[k] IN IF IsHeader(e) THEN e ELSE [e EXCEPT !.id = @ \o <<48 + i>>]
Lists == UNION {[1..n -> 1..Len(Shapes)] : n \in 0..MAX}
OneHeader(l) == Cardinality({i \in 1..Len(l) : IsHeader(Shapes[l[i]])}) <= 1
Init == c \in {[l |-> l, w |-> w] : l \in {l \in Lists : OneHeader(l)}, w \in WAYS}
Next == UNCHANGED c
Way == c.w + Len(c.l) + (IF c.l = <<>> THEN 0 ELSE c.l[1] + 3 * c.l[Len(c.l)])
Emit == CSVWrite("%1$s", <<ToJson([es |-> [i \in 1..Len(c.l) |-> Put(c.l[i], i)], wrap |-> Way % 2 = 0, w |-> Way % 8, r |-> Way % 7])>>, IOEnv.CASES)
=============================================================================
