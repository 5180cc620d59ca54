------------------------------- MODULE Gen_C10 -------------------------------
(***************************************************************************)
(* Every small list: of messages, of references, of plural forms.          *)
(***************************************************************************)
EXTENDS Order, CSV, Json, IOUtils, TLC
CONSTANTS NES, NLOCS, NFORMS
VARIABLE c
Names == {<<>>, <<97>>, <<46, 47, 97>>, <<98>>, <<65>>, <<97, 47, 98>>}
L == [f : Names, l : {0, 2, 10}]
L2 == {[f |-> <<97>>, l |-> 2], [f |-> <<98>>, l |-> 1]}
Some == {<<>>} \union {<<x>> : x \in L2}
Forms == [i : {0, 1, 10}, s : {<<>>, <<97>>, <<98, 97>>}]
\* Messages that differ in what the keys look at, alone and together.
Msgs == {[NoEntry EXCEPT !.obs = o, !.flags = f, !.locs = l] : o \in BOOLEAN, f \in {<<>>, <<FUZZY>>, <<<<97>>, FUZZY>>}, l \in Some}
        \union {[NoEntry EXCEPT !.id = i, !.ctx = x] : i \in {<<97>>, <<97, 98>>, <<98>>}, x \in {<<>>, <<97>>, <<99>>}}
        \union {[NoEntry EXCEPT !.str = s, !.forms = f] : s \in {<<>>, <<97>>}, f \in {<<>>, <<[i |-> 0, s |-> <<97>>]>>, <<[i |-> 1, s |-> <<>>]>>}}
        \union {[NoEntry EXCEPT !.locs = <<x, y>>] : x \in L2, y \in L2}
Few == {[NoEntry EXCEPT !.id = <<97>>, !.locs = <<[f |-> <<98>>, l |-> 1]>>], [NoEntry EXCEPT !.id = <<98>>, !.locs = <<[f |-> <<97>>, l |-> 2]>>],
        [NoEntry EXCEPT !.id = <<97>>, !.flags = <<FUZZY>>, !.locs = <<[f |-> <<97>>, l |-> 2]>>], [NoEntry EXCEPT !.id = <<97>>, !.obs = TRUE],
        [NoEntry EXCEPT !.id = <<98>>, !.obs = TRUE, !.flags = <<FUZZY>>], NoEntry, [NoEntry EXCEPT !.id = <<98>>, !.ctx = <<99>>]}
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Case(e, l, f) == [es |-> e, locs |-> l, forms |-> f]
Cases == {Case(e, <<>>, <<>>) : e \in Seqs(Msgs, 2) \union Seqs(Few, NES)}
         \union {Case(<<>>, l, <<>>) : l \in Seqs(L, 2) \union Seqs({x \in L : x.l # 0 /\ x.f \in {<<97>>, <<46, 47, 97>>, <<98>>}}, NLOCS)}
         \union {Case(<<>>, <<>>, f) : f \in Seqs(Forms, NFORMS)}
Init == c \in Cases
Next == UNCHANGED c
\* The sort modes are asked for in turn.
R == Len(c.es) + (IF c.es = <<>> THEN 0 ELSE Len(c.es[1].id) + 2 * Len(c.es[1].locs) + (IF c.es[1].obs THEN 1 ELSE 0))
     + Len(c.locs) + (IF c.locs = <<>> THEN 0 ELSE Len(c.locs[1].f)) + Len(c.forms) + (IF c.forms = <<>> THEN 0 ELSE Len(c.forms[1].s))
Emit == CSVWrite("%1$s", <<ToJson([es |-> c.es, locs |-> c.locs, forms |-> c.forms, r |-> R])>>, IOEnv.CASES)
=============================================================================
