------------------------------ MODULE Trace_C06 ------------------------------
(***************************************************************************)
(* C06: the gettext runtime finds in a compiled file exactly its messages. *)
(***************************************************************************)
EXTENDS MoFormat, TraceRun

Check(r) ==
    LET b == r.out.mo
        file == MoRead(b)
        be == r.in.endian = 2
        ms == MoMessages(r.in.es)
        h == Hdr(b, be)
        n == Len(file.strs)
        ids == [i \in 1..n |-> file.strs[i].id]
        tab == HashTable(b, h, be)
        bis(key) == Bisect(ids, key, 0, n)
        found(k, e) == k > 0 /\ file.strs[k].tr = Translation(e)
                       /\ ids[k] = Key(e) \o (IF e.pl # <<>> THEN <<0>> \o e.pl ELSE <<>>)
        others == {r.in.absent[i] : i \in 1..Len(r.in.absent)} \ {Key(ms[i]) : i \in 1..Len(ms)}
    IN IF file.st # "ok" \/ file.odd \/ Order(b) # (IF be THEN "be" ELSE "le") THEN {"not a valid file in the chosen byte order"}
       ELSE (IF n # Len(ms) THEN {"another number of messages"} ELSE {})
         \union (IF \A i \in 1..Len(ms) : found(bis(Key(ms[i])), ms[i]) THEN {} ELSE {"binary search misses a message"})
         \union (IF \A k \in others : bis(k) = 0 THEN {} ELSE {"binary search finds what is not there"})
         \union (IF r.in.hash
                 THEN (IF h.s > 2 THEN {} ELSE {"no usable hash table"})
                      \union (IF h.s > 0 /\ (h.h < 28 \/ \E i \in 1..Len(tab) : tab[i] \notin 0..n) THEN {"the hash table refers to what is not there"} ELSE {})
                      \union (IF h.s > 2 /\ \A i \in 1..Len(ms) : found(HashLookup(tab, ids, Key(ms[i])), ms[i]) THEN {} ELSE {"hash probing misses a message"})
                      \union (IF h.s > 2 /\ \A k \in others : HashLookup(tab, ids, k) = 0 THEN {} ELSE {"hash probing does not end or finds what is not there"})
                 ELSE IF h.s = 0 THEN {} ELSE {"an unwanted hash table"})
Accepted == Judge(Check)
=============================================================================
