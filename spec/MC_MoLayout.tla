----------------------------- MODULE MC_MoLayout -----------------------------
(***************************************************************************)
(* Every file of every catalogue means the catalogue, answers the          *)
(* runtime's lookups, and is damaged when cut short anywhere.              *)
(***************************************************************************)
EXTENDS MoLayout
VARIABLES es, y
CONSTANT Catalogues, Chosen(_)
Init == es \in Catalogues /\ y = Usual
Next == y = Usual /\ y' \in {z \in Layouts : Chosen(z)} /\ UNCHANGED es
const_Catalogues == Small \union {Most}
const_Some(z) == z.minor = (IF z.pad = 0 THEN 1 ELSE 0) /\ z.gap # 4 /\ z.share = (z.hash = 1) /\ (z.be = (z.gap = 0))
const_All(z) == TRUE

File == Make(es, y)
Wanted == [i \in 1..Len(es) |-> MoProjection(Sorted(es)[i])]
Means == LET r == MoRead(File) IN
    /\ Order(File) = (IF y.be THEN "be" ELSE "le")
    /\ r.st = "ok" /\ ~r.odd /\ [i \in 1..Len(r.strs) |-> Decode(r.strs[i])] = Wanted
    /\ \A i \in 1..Len(r.strs) : ~OddString(r.strs[i])
\* Keys that are not there, similar to those that are.
Others == ({<<>>, <<97>>, <<97, 98>>, <<98>>, <<112>>, <<112, 115>>, <<4>>, <<97, 4>>, <<255>>, <<122>>, <<113>>}
           \union {Append(Key(es[i]), 4) : i \in 1..Len(es)}) \ Keys(es)
Answers ==
    LET b == File
        r == MoRead(b)
        ids == [i \in 1..Len(r.strs) |-> r.strs[i].id]
        tab == HashTable(b, Hdr(b, y.be), y.be)
        right(k, e) == k > 0 /\ r.strs[k].tr = Translation(e) /\ ids[k] = IdText(e)
    IN /\ \A i \in 1..Len(es) : right(Bisect(ids, Key(es[i]), 0, Len(ids)), es[i])
       /\ \A k \in Others : Bisect(ids, k, 0, Len(ids)) = 0
       /\ y.hash # 0 => /\ \A i \in 1..Len(es) : right(HashLookup(tab, ids, Key(es[i])), es[i])
                        /\ \A k \in Others : HashLookup(tab, ids, k) = 0
CutIsSeen == LET b == File IN \A m \in 0..(Needed(b, y.be) - 1) : MoRead(SubSeq(b, 1, m)).st = "bad"
=============================================================================
