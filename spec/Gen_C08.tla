------------------------------- MODULE Gen_C08 -------------------------------
(***************************************************************************)
(* Every small catalogue with duplicates, and every way to prefer one.     *)
(***************************************************************************)
EXTENDS CatOps, CSV, Json, IOUtils, TLC
CONSTANTS MAX, FORMS
VARIABLE c
Lo(l) == <<[f |-> <<97>>, l |-> l]>>
Fo(i, s) == [i |-> i, s |-> s]
K == [NoEntry EXCEPT !.id = <<97>>]
Shapes == {K, [K EXCEPT !.str = <<98>>, !.locs = Lo(1)], [K EXCEPT !.str = <<99>>, !.flags = <<FUZZY>>, !.com = <<<<120>>>>],
           [K EXCEPT !.obs = TRUE, !.str = <<100>>, !.ext = <<<<121>>>>], [K EXCEPT !.pl = <<112>>, !.locs = Lo(2)],
           [K EXCEPT !.pl = <<112>>, !.forms = <<Fo(0, <<101>>), Fo(1, <<>>)>>], [K EXCEPT !.pl = <<113>>, !.forms = <<Fo(1, <<>>)>>, !.prev = <<<<122>>>>],
           [K EXCEPT !.str = <<98>>, !.forms = <<Fo(0, <<101>>)>>]}
Other == {[K EXCEPT !.ctx = <<97>>], [K EXCEPT !.id = <<>>, !.str = <<104>>]}
Lists == UNION {[1..n -> Shapes] : n \in 0..MAX} \union UNION {{<<x, o, y>>, <<o, x, o>>, <<o, x, y, o>>} : x \in Shapes, y \in Shapes, o \in Other}
Prefer == {[list |-> <<>>, prior |-> <<>>], [list |-> <<<<97>>>>, prior |-> <<[K EXCEPT !.str = <<112>>, !.locs = Lo(9)]>>], [list |-> <<<<97, 4, 97>>>>, prior |-> <<[K EXCEPT !.obs = TRUE, !.pl = <<113>>]>>]}
Case(es, p, fs, f) == [es |-> es, list |-> p.list, prior |-> p.prior, forms |-> fs, file |-> f]
AllForms == {Fo(i, s) : i \in 0..1, s \in {<<>>, <<97>>}}
Cases == {Case(es, p, <<>>, Len(es) % 2 = 0) : es \in Lists, p \in Prefer} \union {Case(<<>>, [list |-> <<>>, prior |-> <<>>], fs, FALSE) : fs \in UNION {[1..n -> AllForms] : n \in 1..FORMS}}
Init == c \in Cases
Next == UNCHANGED c
Emit == CSVWrite("%1$s", <<ToJson(c)>>, IOEnv.CASES)
=============================================================================
