------------------------------- MODULE Gen_C11 -------------------------------
(***************************************************************************)
(* Every pair of small messages that differ in at most DIFF fields, alone  *)
(* and behind an equal message, and lists of different lengths.            *)
(***************************************************************************)
EXTENDS Catalog, CSV, Json, IOUtils, TLC
CONSTANTS DIFF
VARIABLE c
T == {<<>>, <<97>>, <<98>>}
Lists == {<<>>, <<<<>>>>, <<<<97>>>>, <<<<97>>, <<98>>>>, <<<<98>>, <<97>>>>, <<<<97, 98>>>>}
Lo(f, l) == [f |-> f, l |-> l]
Fo(i, s) == [i |-> i, s |-> s]
\* What each field may hold.
Values == [ctx |-> T, id |-> T, pl |-> T, str |-> T, obs |-> BOOLEAN, flags |-> Lists, com |-> Lists, ext |-> Lists, prev |-> Lists,
           locs |-> {<<>>, <<Lo(<<97>>, 1)>>, <<Lo(<<97>>, 2)>>, <<Lo(<<98>>, 1)>>, <<Lo(<<46, 47, 97>>, 1)>>, <<Lo(<<97>>, 1), Lo(<<98>>, 1)>>, <<Lo(<<98>>, 1), Lo(<<97>>, 1)>>},
           forms |-> {<<>>, <<Fo(0, <<>>)>>, <<Fo(0, <<97>>)>>, <<Fo(1, <<97>>)>>, <<Fo(0, <<97>>), Fo(1, <<98>>)>>, <<Fo(1, <<98>>), Fo(0, <<97>>)>>}]
Names == DOMAIN Values
Put(e, f, v) == [x \in DOMAIN e |-> IF x = f THEN v ELSE e[x]]
\* A message with the fields ks set, each to some value.
One == UNION {{Put(NoEntry, f, v) : v \in Values[f]} : f \in Names}
Full == [NoEntry EXCEPT !.ctx = <<97>>, !.id = <<97>>, !.pl = <<97>>, !.flags = <<<<97>>>>, !.com = <<<<97>>>>, !.ext = <<<<97>>>>,
                        !.prev = <<<<97>>>>, !.locs = <<Lo(<<97>>, 1)>>, !.forms = <<Fo(0, <<97>>)>>]
Changed(e, n) == LET RECURSIVE C(_)
                     C(k) == IF k = 0 THEN {e} ELSE LET p == C(k - 1) IN p \union UNION {UNION {{Put(m, f, v) : v \in Values[f]} : f \in Names} : m \in p}
                 IN C(n)
\* The same field, any two values: everything two messages can differ in at one place.
SameField == UNION {{<<Put(e, f, v), Put(e, f, w)>> : v \in Values[f], w \in Values[f], e \in {NoEntry, Full}} : f \in Names}
Pairs == SameField \union {<<Full, m>> : m \in Changed(Full, DIFF)} \union {<<m, NoEntry>> : m \in One}
Case(a, b) == [a |-> a, b |-> b, na |-> "n", nb |-> "n", view |-> 0, nil |-> FALSE]
Cases == {Case(<<p[1]>>, <<p[2]>>) : p \in Pairs} \union {Case(<<Full, p[1]>>, <<Full, p[2]>>) : p \in SameField}
         \union {[Case(<<p[1]>>, <<p[2]>>) EXCEPT !.nil = TRUE] : p \in SameField}
         \union {[Case(a, b) EXCEPT !.nb = n] : a \in {<<>>, <<Full>>, <<Full, NoEntry>>}, b \in {<<>>, <<Full>>, <<NoEntry, Full>>}, n \in {"n", "m", ""}}
Init == c \in Cases
Next == UNCHANGED c
Emit == CSVWrite("%1$s", <<ToJson(c)>>, IOEnv.CASES)
=============================================================================
