------------------------------- MODULE MoLayout -------------------------------
(***************************************************************************)
(* The files in which one catalogue can be written as MO: what the format  *)
(* leaves free.  Make(es, y) is the file of the messages es in layout      *)
(*   y = [be : byte order, minor : revision, gap : bytes behind the header,*)
(*        parts : the order of the tables and the text,                    *)
(*        hash : size of the hash table (0: none) over the smallest prime  *)
(*        that leaves a quarter free, share : equal strings are kept once, *)
(*        pad : bytes that nothing names, behind every part].              *)
(***************************************************************************)
EXTENDS MoFormat

Byte(v, k) == (v \div (CASE k = 0 -> 1 [] k = 1 -> 256 [] k = 2 -> 65536 [] k = 3 -> 16777216)) % 256
WordBytes(v, be) == IF be THEN <<Byte(v, 3), Byte(v, 2), Byte(v, 1), Byte(v, 0)>> ELSE <<Byte(v, 0), Byte(v, 1), Byte(v, 2), Byte(v, 3)>>
HalfBytes(v, be) == IF be THEN <<v \div 256, v % 256>> ELSE <<v % 256, v \div 256>>
WordsBytes(ws, be) == Flat([i \in 1..Len(ws) |-> WordBytes(ws[i], be)])

IdText(e) == Key(e) \o (IF e.pl = <<>> THEN <<>> ELSE <<0>> \o e.pl)

\* The strings in one piece of text, each with a NUL behind it, and where they start in it.
Text(strs, share) ==
    LET step(a, s) ==
          LET S == {i \in 1..Len(a.strs) : a.strs[i] = s} IN
          IF share /\ S # {} THEN [a EXCEPT !.strs = Append(@, s), !.at = Append(@, a.at[CHOOSE i \in S : TRUE])]
          ELSE [strs |-> Append(a.strs, s), at |-> Append(a.at, Len(a.text)), text |-> a.text \o s \o <<0>>]
    IN FoldLeft(step, [strs |-> <<>>, at |-> <<>>, text |-> <<>>], strs)

Prime(k) == k > 1 /\ \A d \in 2..(k - 1) : k % d # 0
NextPrime(k) == CHOOSE p \in k..(2 * k + 2) : Prime(p) /\ \A q \in k..(p - 1) : ~Prime(q)

\* The hash table of the keys: every key in the first free place of its probe.
RECURSIVE Place(_, _, _, _)
Place(tab, idx, incr, k) ==
    IF tab[idx + 1] = 0 THEN [tab EXCEPT ![idx + 1] = k]
    ELSE Place(tab, IF idx >= Len(tab) - incr THEN idx - (Len(tab) - incr) ELSE idx + incr, incr, k)
HashTableOf(keys, size) ==
    FoldLeft(LAMBDA tab, k : LET h == HashOf(keys[k]) IN Place(tab, h % size, 1 + (h % (size - 2)), k),
             [i \in 1..size |-> 0], [k \in 1..Len(keys) |-> k])
TableSize(n, more) == IF more = 0 THEN 0 ELSE NextPrime(Max2(3, (n * 4) \div 3 + more - 1))

Zeros(n) == [i \in 1..n |-> 0]
Make(es0, y) ==
    LET es == Sorted(es0)
        n == Len(es)
        text == Text([i \in 1..n |-> IdText(es[i])] \o [i \in 1..n |-> Translation(es[i])], y.share)
        size == TableSize(n, y.hash)
        tab == IF size = 0 THEN <<>> ELSE HashTableOf([i \in 1..n |-> Key(es[i])], size)
        length(p) == CASE p = "text" -> Len(text.text) [] p = "hash" -> 4 * size [] OTHER -> 8 * n
        place(p) == FoldLeft(LAMBDA a, q : IF a.done THEN a ELSE IF q = p THEN [a EXCEPT !.done = TRUE]
                                           ELSE [a EXCEPT !.at = @ + length(q) + y.pad],
                             [at |-> 28 + y.gap, done |-> FALSE], y.parts).at
        words(from) == [i \in 1..(2 * n) |-> LET s == text.strs[from + (i + 1) \div 2] IN
                                             IF i % 2 = 1 THEN Len(s) ELSE place("text") + text.at[from + i \div 2]]
        bytes(p) == CASE p = "text" -> text.text
                      [] p = "hash" -> WordsBytes(tab, y.be)
                      [] p = "ids" -> WordsBytes(words(0), y.be)
                      [] p = "trs" -> WordsBytes(words(n), y.be)
    IN (IF y.be THEN MagicBE ELSE MagicLE) \o HalfBytes(IF y.be THEN 0 ELSE y.minor, y.be) \o HalfBytes(IF y.be THEN y.minor ELSE 0, y.be)
       \o WordsBytes(<<n, place("ids"), place("trs"), size, place("hash")>>, y.be)
       \o [i \in 1..y.gap |-> 255]
       \o Flat([i \in 1..Len(y.parts) |-> bytes(y.parts[i]) \o (IF i = Len(y.parts) THEN <<>> ELSE [k \in 1..y.pad |-> 170])])

(********************************* catalogues ******************************)
M(ctx, id, pl, str, forms) == [NoEntry EXCEPT !.ctx = ctx, !.id = id, !.pl = pl, !.str = str,
                                              !.forms = [i \in 1..Len(forms) |-> [i |-> i - 1, s |-> forms[i]]]]
Hdr0 == M(<<>>, <<>>, <<>>, <<76, 58, 32, 120, 10>>, <<>>)
Simple == M(<<>>, <<97>>, <<>>, <<120>>, <<>>)
Longer == M(<<>>, <<97, 98>>, <<>>, <<120>>, <<>>)
Void == M(<<>>, <<98>>, <<>>, <<>>, <<>>)
Within == M(<<97>>, <<98>>, <<>>, <<98>>, <<>>)
NoId == M(<<99>>, <<>>, <<>>, <<121>>, <<>>)
Script == M(<<195, 169>>, <<230, 188, 162>>, <<>>, <<240, 159, 152, 128>>, <<>>)
Two == M(<<>>, <<112>>, <<112, 115>>, <<>>, <<<<49>>, <<50, 50>>>>)
Four == M(<<100>>, <<112>>, <<113>>, <<>>, <<<<>>, <<50>>, <<>>, <<52>>>>)
One == M(<<>>, <<113>>, <<113>>, <<>>, <<<<122>>>>)
Most == <<Hdr0, Two, Simple, Within, Four, Void, Script, Longer, One, NoId>>
Small == {<<>>, <<Hdr0>>, <<Simple>>, <<Within>>, <<Two>>, <<One>>, <<Four>>, <<Hdr0, Simple>>, <<Simple, Longer>>, <<Script, Void>>,
          <<NoId, Within, Simple>>, <<Two, Four, One>>, <<Void, Hdr0, Two>>}

Parts == {"ids", "trs", "hash", "text"}
Perms == {p \in [1..4 -> Parts] : \A i, j \in 1..4 : i # j => p[i] # p[j]}
Usual == [be |-> FALSE, minor |-> 0, gap |-> 0, parts |-> <<"ids", "trs", "hash", "text">>, hash |-> 0, share |-> FALSE, pad |-> 0]
Layouts == [be : BOOLEAN, minor : {0, 1}, gap : {0, 4, 20}, parts : Perms, hash : {0, 1, 5}, share : BOOLEAN, pad : {0, 3}]

\* The last byte that belongs to something: a file that ends before it is damaged.
Needed(b, be) ==
    LET h == Hdr(b, be)
        ends == {28, h.o + 8 * h.n, h.t + 8 * h.n} \union (IF h.s = 0 THEN {} ELSE {h.h + 4 * h.s})
                \union UNION {LET x == Entry(b, h.o, i, be) z == Entry(b, h.t, i, be) IN {x.at + x.len + 1, z.at + z.len + 1} : i \in 0..(h.n - 1)}
    IN CHOOSE m \in ends : \A k \in ends : k <= m
=============================================================================
