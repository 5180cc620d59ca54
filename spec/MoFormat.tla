------------------------------- MODULE MoFormat -------------------------------
(***************************************************************************)
(* The MO file format and the gettext runtime's lookup in it.  Files are   *)
(* byte sequences; offsets count from 0 as in the format.  Words above     *)
(* 2^31 - 1 are read as HUGE: no valid file holds one.                     *)
(***************************************************************************)
EXTENDS Catalog, Bitwise

HUGE == 2000000000
ByteAt(b, o) == b[o + 1]
Word(b, o, be) ==
    LET w == IF be THEN <<b[o + 4], b[o + 3], b[o + 2], b[o + 1]>> ELSE <<b[o + 1], b[o + 2], b[o + 3], b[o + 4]>>
    IN IF w[4] >= 100 THEN HUGE ELSE w[1] + 256 * w[2] + 65536 * w[3] + 16777216 * w[4]
Half(b, o, be) == IF be THEN 256 * b[o + 1] + b[o + 2] ELSE b[o + 1] + 256 * b[o + 2]

MagicLE == <<222, 18, 4, 149>>
MagicBE == <<149, 4, 18, 222>>

Hdr(b, be) == [n |-> Word(b, 8, be), o |-> Word(b, 12, be), t |-> Word(b, 16, be), s |-> Word(b, 20, be), h |-> Word(b, 24, be)]

\* Whether a table of n entries of w bytes at o lies inside a file of size bytes (no overflow).
Inside(o, n, w, size) == o <= size /\ n <= size /\ o + n * w <= size
\* The i-th (0-based) string of the table at o.
Entry(b, o, i, be) == [len |-> Word(b, o + 8 * i, be), at |-> Word(b, o + 8 * i + 4, be)]
StringOk(b, x) == x.len < Len(b) /\ x.at < Len(b) /\ x.at + x.len < Len(b) /\ ByteAt(b, x.at + x.len) = 0
Str(b, x) == SubSeq(b, x.at + 1, x.at + x.len)

\* "bad": damaged or not an MO file; otherwise its byte order.
Order(b) == IF Len(b) < 28 THEN "bad" ELSE IF SubSeq(b, 1, 4) = MagicLE THEN "le" ELSE IF SubSeq(b, 1, 4) = MagicBE THEN "be" ELSE "bad"

MoRead(b) ==
    LET bad == [st |-> "bad", strs |-> <<>>, odd |-> FALSE]
        ord == Order(b)
    IN IF ord = "bad" THEN bad
       ELSE LET be == ord = "be"
                h == Hdr(b, be)
            IN IF ~(Half(b, 4, be) \in {0, 1} /\ Half(b, 6, be) \in {0, 1}) THEN bad
               ELSE IF ~(Inside(h.o, h.n, 8, Len(b)) /\ Inside(h.t, h.n, 8, Len(b))) THEN bad
               ELSE IF h.s > 0 /\ ~Inside(h.h, h.s, 4, Len(b)) THEN bad
               ELSE LET ids == [i \in 1..h.n |-> Entry(b, h.o, i - 1, be)]
                        trs == [i \in 1..h.n |-> Entry(b, h.t, i - 1, be)]
                    IN IF \E i \in 1..h.n : ~StringOk(b, ids[i]) \/ ~StringOk(b, trs[i]) THEN bad
                       ELSE [st |-> "ok", strs |-> [i \in 1..h.n |-> [id |-> Str(b, ids[i]), tr |-> Str(b, trs[i])]],
                             odd |-> h.n > 0 /\ (h.o < 28 \/ h.t < 28)]

\* A message of an MO file.
Decode(x) ==
    LET e == FindIn(x.id, 1, {4})
        ctx == IF e = 0 THEN <<>> ELSE SubSeq(x.id, 1, e - 1)
        rest == IF e = 0 THEN x.id ELSE From(x.id, e + 1)
        ids == Split(rest, 0)
        trs == Split(x.tr, 0)
        plural == Len(ids) > 1 \/ Len(trs) > 1
    IN [NoEntry EXCEPT !.ctx = ctx, !.id = ids[1], !.pl = IF Len(ids) > 1 THEN ids[2] ELSE <<>>,
                       !.str = IF plural THEN <<>> ELSE x.tr,
                       !.forms = IF plural THEN [i \in 1..Len(trs) |-> [i |-> i - 1, s |-> trs[i]]] ELSE <<>>]
\* Strings that no gettext tool writes.
OddString(x) ==
    \/ Cardinality({i \in 1..Len(x.id) : x.id[i] = 4}) > 1
    \/ Cardinality({i \in 1..Len(x.id) : x.id[i] = 0}) > 1
    \/ \E i, j \in 1..Len(x.id) : i < j /\ x.id[i] = 0 /\ x.id[j] = 4
    \/ ~ValidUtf8(x.id)

(****************************** the compiler *******************************)
\* The messages that a compiled file holds, in order.
MoMessages(es) ==
    CleanDuplicates(SelectSeq(es, LAMBDA e : ~e.obs /\ ~IsFuzzy(e)))
Sorted(es) == SortSeq(es, LAMBDA a, b : Lex(Key(a), Key(b)) = -1)
\* The forms lie in the order of their numbers 0, 1, 2...
InOrder(fs) == SortSeq(fs, LAMBDA a, b : a.i < b.i)
MoProjection(e) == [NoEntry EXCEPT !.ctx = e.ctx, !.id = e.id, !.pl = e.pl, !.str = e.str, !.forms = InOrder(e.forms)]
FormsText(fs) == Join([i \in 1..Len(fs) |-> InOrder(fs)[i].s], <<0>>)
Translation(e) == IF IsPlural(e) THEN FormsText(e.forms) ELSE e.str

(******************************* the runtime *******************************)
\* The hash of a key: shift by 4, add, fold the upper 4 of 32 bits back in.
HashStep(h, c) ==
    LET v == (h % 16777216) * 16 + c
        g == ((h \div 16777216) + (v \div 268435456)) % 16
        low == v % 268435456
    IN IF g = 0 THEN low ELSE low ^^ (g * 16)
HashOf(key) == FoldLeft(HashStep, 0, key)

CString(s) == LET z == FindIn(s, 1, {0}) IN IF z = 0 THEN s ELSE SubSeq(s, 1, z - 1)

\* Binary search: the 1-based index of key among the C strings of the table, or 0.
RECURSIVE Bisect(_, _, _, _)
Bisect(ids, key, lo, hi) ==  \* lo inclusive, hi exclusive, 0-based
    IF lo >= hi THEN 0
    ELSE LET mid == (lo + hi) \div 2
             c == Lex(key, CString(ids[mid + 1]))
         IN IF c = 0 THEN mid + 1 ELSE IF c < 0 THEN Bisect(ids, key, lo, mid) ELSE Bisect(ids, key, mid + 1, hi)

\* Hash probing: the 1-based index, 0 if not found, -1 if the probe never ends.
RECURSIVE Probe(_, _, _, _, _, _)
Probe(tab, ids, key, idx, incr, n) ==
    IF n > Len(tab) + 1 THEN -1
    ELSE LET k == tab[idx + 1] IN
         IF k = 0 THEN 0
         ELSE IF k <= Len(ids) /\ CString(ids[k]) = key THEN k
         ELSE Probe(tab, ids, key, IF idx >= Len(tab) - incr THEN idx - (Len(tab) - incr) ELSE idx + incr, incr, n + 1)
HashLookup(tab, ids, key) ==
    LET h == HashOf(key) IN Probe(tab, ids, key, h % Len(tab), 1 + (h % (Len(tab) - 2)), 0)
HashTable(b, h, be) == [i \in 1..h.s |-> Word(b, h.h + 4 * (i - 1), be)]
=============================================================================
