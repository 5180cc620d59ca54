------------------------------- MODULE Gen_C07 -------------------------------
(***************************************************************************)
(* MO files in every layout that the format allows: whole, cut short, and  *)
(* with one word of the header or of a table replaced.                     *)
(***************************************************************************)
EXTENDS MoLayout, Json, CSV, IOUtils
VARIABLES es, y, v
CONSTANTS Catalogues, Chosen(_), Values
const_Catalogues == Small \union {Most}
\* Every part of a layout, in many but not all combinations.
Mixed(z) == /\ z.be = (z.gap = 0) /\ z.share = (z.hash = 1)
            /\ z.parts \in {p \in Perms : (p[1] = "text") = (z.pad = 0)} /\ z.minor = (IF z.parts[4] = "ids" THEN 1 ELSE 0)
const_More(z) == z = Usual \/ (Mixed(z) /\ z.gap # 20)
const_Few(z) == /\ const_More(z) /\ (z.gap = 0) = (z.hash = 1)
                /\ z.parts \in {<<"ids", "trs", "hash", "text">>, <<"text", "ids", "trs", "hash">>,
                                <<"hash", "text", "trs", "ids">>, <<"trs", "text", "hash", "ids">>}

\* Words: small numbers, or bytes that stand for what no file holds.
const_Values == {0, 1, 27, 28, 2000, -1, -2, -3}
const_FewValues == {0, 28, 2000, -1, -3}
Bytes4(k, b, be) ==
    IF k >= 0 THEN WordBytes(k, be)
    ELSE CASE k = -1 -> <<255, 255, 255, 255>>
           [] k = -2 -> IF be THEN <<128, 0, 0, 0>> ELSE <<0, 0, 0, 128>>
           [] k = -3 -> WordBytes(Len(b), be)
Replaced(b, o, w) == SubSeq(b, 1, o) \o w \o SubSeq(b, o + 5, Len(b))

None == [k |-> "none", a |-> 0, b |-> 0]
Init == es \in Catalogues /\ y = Usual /\ v = None
Next == /\ v = None /\ UNCHANGED es
        /\ y' \in {z \in Layouts : Chosen(z)}
        /\ v' \in {[k |-> "whole", a |-> e, b |-> 0] : e \in 0..2}
                  \union {[k |-> "cut", a |-> c, b |-> 0] : c \in 1..4}
                  \union {[k |-> "word", a |-> w, b |-> x] : w \in 1..6, x \in Values}
                  \union {[k |-> "entry", a |-> w, b |-> x] : w \in 0..3, x \in Values}
                  \union {[k |-> "nul", a |-> c, b |-> 0] : c \in 0..1}

Bytes ==
    LET b == Make(es, y)
        n == Len(es)
        h == Hdr(b, y.be)
        need == Needed(b, y.be)
    IN CASE v.k = "whole" -> b
         [] v.k = "cut" -> SubSeq(b, 1, (need * v.a) \div 4 - 1)
         [] v.k = "word" -> Replaced(b, 4 * v.a, Bytes4(v.b, b, y.be))
         [] v.k = "entry" -> IF n = 0 THEN b
                             ELSE LET t == IF v.a \div 2 = 0 THEN h.o + 8 * (n - 1) ELSE h.t
                                  IN Replaced(b, t + 4 * (v.a % 2), Bytes4(v.b, b, y.be))
         [] v.k = "nul" -> IF n = 0 THEN b
                           ELSE LET x == Entry(b, IF v.a = 0 THEN h.o ELSE h.t, (n - 1) * v.a, y.be) IN [b EXCEPT ![x.at + x.len + 1] = 88]
Emit == v # None => LET mo == Bytes IN
    CSVWrite("%1$s", <<ToJson([mo |-> mo, endian |-> IF v.k = "whole" THEN v.a ELSE 0, sorted |-> Len(mo) % 2 = 0, r |-> Len(mo) + v.a])>>, IOEnv.CASES)
=============================================================================
