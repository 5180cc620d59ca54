------------------------------ MODULE GoExtract ------------------------------
(***************************************************************************)
(* The gotext messages of a Go source file, read from its bytes.           *)
(*                                                                         *)
(* The bytes are cut into tokens [k, v, p]: kind "id", "str", "num",       *)
(* "chr" or "op"; v is the name, the value of the string or the byte; p is *)
(* the position of the first byte.  Comments and blanks are no tokens.     *)
(* A call is  pkg . Method ( arguments )  where pkg is the name under      *)
(* which gotext is imported.                                               *)
(***************************************************************************)
EXTENDS Catalog

(********************************* tokens **********************************)
Letter == (65..90) \union (97..122) \union {95} \union (128..255)
NameByte == Letter \union Digit
Blank4 == {9, 10, 13, 32}
BOM == <<239, 187, 191>>

\* The position of the quote that ends the string or rune with first inner byte at i.
RECURSIVE EndQuote(_, _, _)
EndQuote(s, i, q) ==
    LET j == FindIn(s, i, {q, 92}) IN
    IF j = 0 THEN Len(s) ELSE IF s[j] = q THEN j ELSE EndQuote(s, j + 2, q)

RECURSIVE EndNumber(_, _)
EndNumber(s, i) ==
    LET j == FindNotIn(s, i, NameByte \union {46}) IN
    IF j = 0 THEN Len(s)
    ELSE IF s[j] \in {43, 45} /\ (s[j - 1] \in {112, 80} \/ (s[j - 1] \in {101, 69} /\ s[i] # 48)) THEN EndNumber(s, j + 1)
    ELSE j - 1

RECURSIVE EndBlock(_, _)
EndBlock(s, i) ==
    LET j == FindIn(s, i, {42}) IN
    IF j = 0 THEN Len(s) ELSE IF StartsAt(s, j, <<42, 47>>) THEN j + 1 ELSE EndBlock(s, j + 1)

ToEnd(s, j) == IF j = 0 THEN Len(s) ELSE j
OctVal(s) == FoldLeft(LAMBDA acc, d : acc * 8 + (d - 48), 0, s)
HexNum(s) == FoldLeft(LAMBDA acc, d : acc * 16 + HexVal(d), 0, s)
Utf8(n) ==
    IF n < 128 THEN <<n>>
    ELSE IF n < 2048 THEN <<192 + n \div 64, 128 + (n % 64)>>
    ELSE IF n < 65536 THEN <<224 + n \div 4096, 128 + ((n \div 64) % 64), 128 + (n % 64)>>
    ELSE <<240 + n \div 262144, 128 + ((n \div 4096) % 64), 128 + ((n \div 64) % 64), 128 + (n % 64)>>
Simple == (97 :> 7) @@ (98 :> 8) @@ (102 :> 12) @@ (110 :> 10) @@ (114 :> 13) @@ (116 :> 9) @@ (118 :> 11)
          @@ (92 :> 92) @@ (39 :> 39) @@ (34 :> 34)
RECURSIVE UnescapeFrom(_, _)
UnescapeFrom(s, i) ==
    LET j == FindIn(s, i, {92}) IN
    IF j = 0 THEN From(s, i)
    ELSE SubSeq(s, i, j - 1) \o
         (LET c == s[j + 1] IN
          CASE c \in DOMAIN Simple -> <<Simple[c]>> \o UnescapeFrom(s, j + 2)
            [] c = 120 -> <<HexNum(SubSeq(s, j + 2, j + 3))>> \o UnescapeFrom(s, j + 4)
            [] c = 117 -> Utf8(HexNum(SubSeq(s, j + 2, j + 5))) \o UnescapeFrom(s, j + 6)
            [] c = 85 -> Utf8(HexNum(SubSeq(s, j + 2, j + 9))) \o UnescapeFrom(s, j + 10)
            [] OTHER -> <<OctVal(SubSeq(s, j + 1, j + 3))>> \o UnescapeFrom(s, j + 4))
Unescape(s) == UnescapeFrom(s, 1)
NoCR(s) == SelectSeq(s, LAMBDA c : c # 13)

\* The token (or gap) that starts at i, and its last position e.
TokenAt(s, i) ==
    LET c == s[i]
        t(k, v, e) == [k |-> k, v |-> v, p |-> i, e |-> e]
    IN CASE c \in Blank4 -> t("gap", <<>>, i)
         [] i = 1 /\ StartsWith(s, BOM) -> t("gap", <<>>, 3)
         [] c \in Letter ->
              LET e == LET j == FindNotIn(s, i, NameByte) IN IF j = 0 THEN Len(s) ELSE j - 1
              IN t("id", SubSeq(s, i, e), e)
         [] c \in Digit \/ (c = 46 /\ i < Len(s) /\ s[i + 1] \in Digit) -> t("num", <<>>, EndNumber(s, i))
         [] c = 34 -> LET e == EndQuote(s, i + 1, 34) IN t("str", Unescape(SubSeq(s, i + 1, e - 1)), e)
         [] c = 96 -> LET e == ToEnd(s, FindIn(s, i + 1, {96})) IN t("str", NoCR(SubSeq(s, i + 1, e - 1)), e)
         [] c = 39 -> t("chr", <<>>, EndQuote(s, i + 1, 39))
         [] StartsAt(s, i, <<47, 47>>) -> t("gap", <<>>, ToEnd(s, FindIn(s, i, {10})))
         [] StartsAt(s, i, <<47, 42>>) -> t("gap", <<>>, EndBlock(s, i + 2))
         [] OTHER -> t("op", <<c>>, i)
Tokens(s) ==
    FoldLeft(LAMBDA st, i :
        IF i < st.next THEN st
        ELSE LET t == TokenAt(s, i) IN
             [next |-> t.e + 1, toks |-> IF t.k = "gap" THEN st.toks ELSE Append(st.toks, [k |-> t.k, v |-> t.v, p |-> t.p])],
        [next |-> 1, toks |-> <<>>], [i \in 1..Len(s) |-> i]).toks

(******************************** structure ********************************)
IsOp(t, c) == t.k = "op" /\ t.v = <<c>>
Opens == {40, 91, 123}
Closes == {41, 93, 125}
Opening(t) == t.k = "op" /\ t.v[1] \in Opens
Closing(t) == t.k = "op" /\ t.v[1] \in Closes
\* How deep in brackets each token is.
Depths(ts) ==
    FoldLeft(LAMBDA acc, t :
        LET d == IF acc = <<>> THEN 0 ELSE acc[Len(acc)].after
        IN Append(acc, [at |-> IF Closing(t) THEN d - 1 ELSE d, after |-> IF Opening(t) THEN d + 1 ELSE IF Closing(t) THEN d - 1 ELSE d]),
        <<>>, ts)
MatchOf(dep, i) ==     \* of the opening bracket at i
    LET k == SelectInSeq(SubSeq(dep, i + 1, Len(dep)), LAMBDA d : d.at = dep[i].at) IN i + k

KwImport == <<105, 109, 112, 111, 114, 116>>
WANTED == <<103, 105, 116, 104, 117, 98, 46, 99, 111, 109, 47, 108, 101, 111, 110, 101, 108, 113, 117, 105, 110, 116, 101, 114, 111, 115, 47, 103, 111, 116, 101, 120, 116>>
GOTEXT == <<103, 111, 116, 101, 120, 116>>

\* The string tokens that are import paths.
ImportPaths(ts, dep) ==
    UNION {LET i == k IN
           IF IsOp(ts[i + 1], 40)
           THEN {j \in (i + 2)..MatchOf(dep, i + 1) : ts[j].k = "str"}
           ELSE IF ts[i + 1].k = "str" THEN {i + 1} ELSE {i + 2}
          : k \in {i \in 1..(Len(ts) - 1) : ts[i].k = "id" /\ ts[i].v = KwImport /\ dep[i].at = 0}}
Wanted(ts, dep) == {i \in ImportPaths(ts, dep) : ts[i].v = WANTED}
Imported(ts, dep) == Wanted(ts, dep) # {}
PkgName(ts, dep) ==
    IF ~Imported(ts, dep) THEN GOTEXT
    ELSE LET i == CHOOSE x \in Wanted(ts, dep) : \A y \in Wanted(ts, dep) : x <= y IN
         IF ts[i - 1].k = "id" /\ ts[i - 1].v # KwImport THEN ts[i - 1].v ELSE GOTEXT

(********************************** calls **********************************)
\* Where each method takes its message, plural and context from (arguments from 0; -1: nowhere).
Methods == {
    [name |-> <<71, 101, 116>>, id |-> 0, pl |-> -1, ctx |-> -1],
    [name |-> <<71, 101, 116, 78>>, id |-> 0, pl |-> 1, ctx |-> -1],
    [name |-> <<71, 101, 116, 68>>, id |-> 1, pl |-> -1, ctx |-> -1],
    [name |-> <<71, 101, 116, 78, 68>>, id |-> 1, pl |-> 2, ctx |-> -1],
    [name |-> <<71, 101, 116, 67>>, id |-> 0, pl |-> -1, ctx |-> 1],
    [name |-> <<71, 101, 116, 78, 67>>, id |-> 0, pl |-> 1, ctx |-> 3],
    [name |-> <<71, 101, 116, 68, 67>>, id |-> 1, pl |-> -1, ctx |-> 2],
    [name |-> <<71, 101, 116, 78, 68, 67>>, id |-> 1, pl |-> 2, ctx |-> 4]}
IsMethod(v) == \E m \in Methods : m.name = v
MethodOf(v) == CHOOSE m \in Methods : m.name = v

CallsOf(ts, dep) ==
    LET pkg == PkgName(ts, dep) IN
    SelectSeq([i \in 1..Len(ts) |-> i], LAMBDA i :
        /\ i + 3 <= Len(ts)
        /\ ts[i].k = "id" /\ ts[i].v = pkg
        /\ i = 1 \/ ~IsOp(ts[i - 1], 46)
        /\ IsOp(ts[i + 1], 46)
        /\ ts[i + 2].k = "id" /\ IsMethod(ts[i + 2].v)
        /\ IsOp(ts[i + 3], 40))
\* The arguments of the call at i: sequences of token numbers.
ArgsOf(ts, dep, i) ==
    LET open == i + 3 close == MatchOf(dep, open)
        parts == FoldLeft(LAMBDA acc, j :
            IF IsOp(ts[j], 44) /\ dep[j].at = dep[open].after THEN Append(acc, <<>>)
            ELSE [acc EXCEPT ![Len(acc)] = Append(@, j)], <<<<>>>>, [n \in 1..(close - open - 1) |-> open + n])
    IN IF parts[Len(parts)] = <<>> THEN SubSeq(parts, 1, Len(parts) - 1) ELSE parts

\* Argument n of a call: its token, 0 if it gives no text, -1 if the call is malformed.
ArgAt(ts, args, n) ==
    IF n = -1 THEN 0
    ELSE IF n + 1 > Len(args) THEN -1
    ELSE IF Len(args[n + 1]) # 1 THEN 0
    ELSE LET t == ts[args[n + 1][1]] IN
         IF t.k \in {"num", "chr"} THEN -1
         ELSE IF t.k = "str" /\ t.v # <<>> THEN args[n + 1][1] ELSE 0
Call(ts, dep, i) ==
    LET m == MethodOf(ts[i + 2].v) args == ArgsOf(ts, dep, i)
    IN [at |-> i, id |-> ArgAt(ts, args, m.id), pl |-> ArgAt(ts, args, m.pl), ctx |-> ArgAt(ts, args, m.ctx)]
Malformed(c) == -1 \in {c.id, c.pl, c.ctx}
IsMessage(c) == ~Malformed(c) /\ c.id > 0

(******************************** messages *********************************)
LineOf(s, p) == 1 + Cardinality({i \in 1..(p - 1) : s[i] = 10})
TextOf(ts, i) == IF i = 0 THEN <<>> ELSE ts[i].v
Found(s, ts, name, c) ==
    [NoEntry EXCEPT !.id = TextOf(ts, c.id), !.pl = TextOf(ts, c.pl), !.ctx = TextOf(ts, c.ctx),
                    !.locs = <<[f |-> name, l |-> LineOf(s, ts[c.id].p)]>>]
\* The messages of the source s, as [e, call, lit]: the message, and where the call and the literal are.
\* all: every other string literal is a message too.
Extract(s, name, all) ==
    LET ts == Tokens(s)
        dep == Depths(ts)
        on == Imported(ts, dep)
        calls == IF on \/ all THEN [k \in 1..Len(CallsOf(ts, dep)) |-> Call(ts, dep, CallsOf(ts, dep)[k])] ELSE <<>>
        good == SelectSeq(calls, IsMessage)
        used == UNION {{good[k].id, good[k].pl, good[k].ctx} : k \in 1..Len(good)}
        paths == ImportPaths(ts, dep)
        own == IF all THEN SelectSeq([i \in 1..Len(ts) |-> i], LAMBDA i : ts[i].k = "str" /\ ts[i].v # <<>> /\ i \notin used /\ i \notin paths)
               ELSE <<>>
    IN [msgs |-> [k \in 1..Len(good) |-> [e |-> Found(s, ts, name, good[k]), call |-> good[k].at, lit |-> good[k].id]]
                 \o [k \in 1..Len(own) |-> [e |-> Found(s, ts, name, [id |-> own[k], pl |-> 0, ctx |-> 0]), call |-> own[k], lit |-> own[k]]],
        bad |-> \E k \in 1..Len(calls) : Malformed(calls[k]),
        imported |-> on]
ByCall(ms) == LET s == SortSeq(ms, LAMBDA a, b : a.call < b.call) IN [k \in 1..Len(s) |-> s[k].e]
ByLiteral(ms) == LET s == SortSeq(ms, LAMBDA a, b : a.lit < b.lit) IN [k \in 1..Len(s) |-> s[k].e]

(***************************** catalogues **********************************)
\* fs: the files in order, [name, src].  What a catalogue made of them holds, in both senses
\* of source order (by call and by literal; they differ for calls within calls alone).
MsgsOf(fs, all) == [i \in 1..Len(fs) |-> Extract(fs[i].src, fs[i].name, all)]
InCallOrder(xs) == Flat([i \in 1..Len(xs) |-> ByCall(xs[i].msgs)])
InTextOrder(xs) == Flat([i \in 1..Len(xs) |-> ByLiteral(xs[i].msgs)])
AnyBad(xs) == \E i \in 1..Len(xs) : xs[i].bad

GroupOf(es, k) == SelectSeq(es, LAMBDA e : Key(e) = k)
FirstKeysOf(es) == FoldLeft(LAMBDA acc, e : IF \E i \in 1..Len(acc) : acc[i] = Key(e) THEN acc ELSE Append(acc, Key(e)), <<>>, es)
LocsOf(g) == Flat([i \in 1..Len(g) |-> g[i].locs])
SameItems(a, b) ==
    /\ Len(a) = Len(b)
    /\ \A x \in Rng(a) : Cardinality({i \in 1..Len(a) : a[i] = x}) = Cardinality({i \in 1..Len(b) : b[i] = x})
FilesIn(locs) == [i \in 1..Len(locs) |-> locs[i].f]
Bare(e) == [e EXCEPT !.locs = FilesIn(@)]
KeysIn(es) == [i \in 1..Len(es) |-> Key(es[i])]
\* One message m for all those of g.
OneFor(m, g) ==
    /\ \E i \in 1..Len(g) : m.pl = g[i].pl
    /\ (\E i \in 1..Len(g) : g[i].pl # <<>>) => m.pl # <<>>
    /\ m = [NoEntry EXCEPT !.id = g[1].id, !.ctx = g[1].ctx, !.pl = m.pl, !.locs = m.locs]
    /\ SameItems(FilesIn(m.locs), FilesIn(LocsOf(g)))
\* The messages es are those of want; the lines are another matter.
HoldsOrdered(es, want, clean) ==
    IF clean THEN /\ KeysIn(es) = FirstKeysOf(want)
                  /\ \A i \in 1..Len(es) : OneFor(es[i], GroupOf(want, Key(es[i])))
    ELSE [i \in 1..Len(es) |-> Bare(es[i])] = [i \in 1..Len(want) |-> Bare(want[i])]
HoldsBag(es, want, clean) ==
    IF clean THEN /\ SameItems(KeysIn(es), FirstKeysOf(want))
                  /\ \A i \in 1..Len(es) : OneFor(es[i], GroupOf(want, Key(es[i])))
    ELSE SameItems([i \in 1..Len(es) |-> Bare(es[i])], [i \in 1..Len(want) |-> Bare(want[i])])
\* The references of es are those of want.
RefsAgree(es, want) ==
    \A k \in Rng(KeysIn(want)) : LocsOf(GroupOf(es, k)) = LocsOf(GroupOf(want, k))
=============================================================================
