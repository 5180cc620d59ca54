------------------------------- MODULE MoCases -------------------------------
(***************************************************************************)
(* Every set of messages over small texts that are prefixes of each other, *)
(* hold each other's contexts, or sort in unusual ways, in every order of  *)
(* the catalogue, and every way to compile it.                             *)
(***************************************************************************)
EXTENDS Catalog, Ascii, CSV, Json, IOUtils, TLC
CONSTANTS MAX, WAYS
VARIABLES c
M(ctx, id, str) == [NoEntry EXCEPT !.ctx = B(ctx), !.id = B(id), !.str = B(str)]
Pl(ctx, id, pl, n) == [NoEntry EXCEPT !.ctx = B(ctx), !.id = B(id), !.pl = B(pl), !.forms = [k \in 1..n |-> [i |-> k - 1, s |-> B("f") \o <<47 + k>>]]]
Pool == <<M("", "a", "1"), M("", "ab", "2"), M("", "b", ""), M("a", "a", "3"), M("a", "", "4"), Pl("", "p", "ps", 2), Pl("a", "p", "a", 3), Pl("", "ab p", "x", 1),
          [M("", "f", "5") EXCEPT !.flags = <<FUZZY>>], [M("", "o", "6") EXCEPT !.obs = TRUE], M("", "", "Language: x~"), [M("", "A", "7") EXCEPT !.id = <<195, 169>>],
          [M("", "", "8") EXCEPT !.id = <<10>>], M("b", "a", "9"), M("", "a ", "10"), [M("", "z", "") EXCEPT !.str = <<195, 169, 10>>]>>
Lists == {l \in UNION {[1..n -> 1..Len(Pool)] : n \in 0..MAX} : \A i, j \in 1..Len(l) : i # j => l[i] # l[j]}
\* The same catalogues together with all the others.
Rest(l) == SelectSeq([k \in 1..Len(Pool) |-> k], LAMBDA k : ~\E i \in 1..Len(l) : l[i] = k)
Init == c \in {[l |-> l, w |-> w] : l \in Lists \union {Rest(l) : l \in Lists}, w \in WAYS}
Next == UNCHANGED c
Case == LET es == [i \in 1..Len(c.l) |-> Pool[c.l[i]]] k == c.w + Len(c.l) + (IF c.l = <<>> THEN 0 ELSE c.l[1]) IN
    [es |-> es, endian |-> k % 3, hash |-> c.w % 2 = 0, w |-> k, r |-> c.w, sorted |-> k % 5 = 0, raw |-> FALSE, asis |-> FALSE,
     absent |-> [i \in 1..Len(Rest(c.l)) |-> Key(Pool[Rest(c.l)[i]])] \o <<B("aa"), B("p") \o <<0>> \o B("ps"), <<4>>, B("a") \o <<4>> >>]
Emit == CSVWrite("%1$s", <<ToJson(Case)>>, IOEnv.CASES)
=============================================================================
