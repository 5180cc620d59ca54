------------------------------ MODULE MC_Merge ------------------------------
(* All merges of small catalogues, with any choice among similar messages. *)
EXTENDS Merge
CONSTANT MAX             \* messages in each catalogue
VARIABLES def, ref, cfg, i, out
vars == <<def, ref, cfg, i, out>>
\* Ids are similar when they begin alike.
Sim(d, r) == IF d.id # <<>> /\ r.id # <<>> /\ d.id[1] = r.id[1] THEN 60 ELSE 0
Ids == {<<97>>, <<97, 98>>, <<99>>}
M(id, x) == [NoEntry EXCEPT !.id = id, !.pl = x[1], !.forms = x[2], !.str = x[3]]
F2(a, b) == <<[i |-> 0, s |-> a], [i |-> 1, s |-> b]>>
DefMsgs == {[M(id, x) EXCEPT !.obs = o, !.com = <<id>>] : o \in BOOLEAN, id \in Ids,
            x \in {<<<<>>, <<>>, <<>>>>, <<<<>>, <<>>, <<120>>>>, <<<<112>>, F2(<<121>>, <<122>>), <<>>>>, <<<<112>>, F2(<<>>, <<>>), <<>>>>}}
RefMsgs == {[M(id, x) EXCEPT !.locs = <<[f |-> id, l |-> 1]>>] : id \in Ids, x \in {<<<<>>, <<>>, <<>>>>, <<<<113>>, <<>>, <<>>>>, <<<<>>, <<>>, <<119>>>>}}
HDef == [NoEntry EXCEPT !.str = <<72>>]
Cats(S) == {<<>>} \union {<<x>> : x \in S} \union (IF MAX = 1 THEN {} ELSE {s \in {<<x, y>> : x \in S, y \in S} : s[1].id # s[2].id})
Init == /\ def \in {h \o c : h \in {<<>>, <<HDef>>}, c \in Cats(DefMsgs)}
        /\ ref \in Cats(RefMsgs)
        /\ cfg \in [fuzzy : BOOLEAN, keep : BOOLEAN, sort : {FALSE}, mode : {"all"}]
        /\ i = 1 /\ out = def
N2 == 2
StepDef == /\ i <= Len(def)
           /\ \E e \in DefSteps(def[i], out, ref, cfg, Sim) : out' = [out EXCEPT ![i] = e]
           /\ i' = i + 1 /\ UNCHANGED <<def, ref, cfg>>
StepRef == /\ i > Len(def) /\ i <= Len(def) + Len(ref)
           /\ \E a \in RefSteps(ref[i - Len(def)], out, def, cfg, N2, Sim) : out' = out \o a
           /\ i' = i + 1 /\ UNCHANGED <<def, ref, cfg>>
Next == StepDef \/ StepRef
Done == i > Len(def) + Len(ref)
Coverage == Done => Covers(out, ref) /\ NoMore(out, def, ref)
Keeping == Done => KeepsExact(out, def, ref) /\ DropsNothing(out, def, ref, cfg) /\ KeepsHeader(out, def)
Guessing == Done => Guesses(out, def, ref, cfg, N2, Sim)
=============================================================================
