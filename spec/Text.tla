-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Byte strings (sequences of 0..255) and the few operations on them that  *)
(* the other modules need.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Rng(s) == {s[i] : i \in 1..Len(s)}
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

\* The first position >= i of s whose byte is (not) in S, or 0.
FindIn(s, i, S) ==
    IF i > Len(s) THEN 0 ELSE IF s[i] \in S THEN i
    ELSE LET k == SelectInSeq(SubSeq(s, i, Len(s)), LAMBDA b : b \in S) IN IF k = 0 THEN 0 ELSE k + i - 1
FindNotIn(s, i, S) ==
    IF i > Len(s) THEN 0 ELSE IF s[i] \notin S THEN i
    ELSE LET k == SelectInSeq(SubSeq(s, i, Len(s)), LAMBDA b : b \notin S) IN IF k = 0 THEN 0 ELSE k + i - 1
\* The last position <= i of s whose byte is not in S, or 0.
RFindNotIn(s, i, S) ==
    IF i < 1 THEN 0 ELSE IF s[i] \notin S THEN i
    ELSE SelectLastInSeq(SubSeq(s, 1, i), LAMBDA b : b \notin S)

From(s, i) == SubSeq(s, i, Len(s))
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
StartsAt(s, i, p) == Len(s) >= i + Len(p) - 1 /\ SubSeq(s, i, i + Len(p) - 1) = p

TrimLeft(s, S) == LET i == FindNotIn(s, 1, S) IN IF i = 0 THEN <<>> ELSE From(s, i)
TrimRight(s, S) == SubSeq(s, 1, RFindNotIn(s, Len(s), S))
Trim(s, S) == TrimRight(TrimLeft(s, S), S)

\* The pieces of s between the bytes c.
RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, i, c) ==
    LET j == FindIn(s, i, {c}) IN
    IF j = 0 THEN <<From(s, i)>> ELSE <<SubSeq(s, i, j - 1)>> \o SplitFrom(s, j + 1, c)
Split(s, c) == SplitFrom(s, 1, c)

\* The non-empty pieces of s between bytes of S.
RECURSIVE FieldsFrom(_, _, _)
FieldsFrom(s, i, S) ==
    LET a == FindNotIn(s, i, S) IN
    IF a = 0 THEN <<>>
    ELSE LET b == FindIn(s, a, S) IN
         IF b = 0 THEN <<From(s, a)>> ELSE <<SubSeq(s, a, b - 1)>> \o FieldsFrom(s, b, S)
Fields(s, S) == FieldsFrom(s, 1, S)

Join(ss, sep) ==
    FoldLeft(LAMBDA acc, i : IF i = 1 THEN ss[1] ELSE acc \o sep \o ss[i], <<>>, [i \in 1..Len(ss) |-> i])
Flat(ss) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, ss)

\* Lexicographic order of byte strings: -1, 0 or 1.
LexFrom(a, b) ==
    LET n == Min2(Len(a), Len(b))
        d == SelectInSeq([k \in 1..n |-> a[k] = b[k]], LAMBDA x : ~x)
    IN IF d # 0 THEN (IF a[d] < b[d] THEN -1 ELSE 1)
       ELSE IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE 0
Lex(a, b) == IF a = b THEN 0 ELSE LexFrom(a, b)

Digit == 48..57
DecVal(s) == FoldLeft(LAMBDA acc, d : acc * 10 + (d - 48), 0, s)
\* The decimal digits of a natural number.
RECURSIVE Dec(_)
Dec(n) == IF n < 0 THEN <<45>> \o Dec(-n)
          ELSE IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>

\* ASCII blanks: \t \n \f \r and space.
WS == {9, 10, 12, 13, 32}

Hex == (48..57) \union (65..70) \union (97..102)
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE c - 87

\* Valid UTF-8 (no overlong forms, surrogates, or values above 10FFFF).
Utf8Step(a, b) ==
    IF a.n > 0 THEN [ok |-> a.ok /\ b >= a.lo /\ b <= a.hi, n |-> a.n - 1, lo |-> 128, hi |-> 191]
    ELSE IF b < 128 THEN a
    ELSE [ok |-> a.ok /\ b \in 194..244,
          n |-> IF b <= 223 THEN 1 ELSE IF b <= 239 THEN 2 ELSE 3,
          lo |-> IF b = 224 THEN 160 ELSE IF b = 240 THEN 144 ELSE 128,
          hi |-> IF b = 237 THEN 159 ELSE IF b = 244 THEN 143 ELSE 191]
ValidUtf8(s) ==
    LET i == FindIn(s, 1, 128..255) IN
    \/ i = 0
    \/ LET r == FoldLeft(Utf8Step, [ok |-> TRUE, n |-> 0, lo |-> 128, hi |-> 191], SubSeq(s, i, Len(s)))
       IN r.ok /\ r.n = 0

\* Slash-separated lexical path cleaning (Go's path.Clean).
CleanPath(p) ==
    IF p = <<>> THEN <<46>>
    ELSE LET rooted == p[1] = 47
             parts == SelectSeq(Split(p, 47), LAMBDA x : x # <<>> /\ x # <<46>>)
             out == FoldLeft(LAMBDA acc, x :
                       IF x = <<46, 46>>
                       THEN IF acc # <<>> /\ acc[Len(acc)] # <<46, 46>> THEN SubSeq(acc, 1, Len(acc) - 1)
                            ELSE IF rooted THEN acc ELSE Append(acc, x)
                       ELSE Append(acc, x), <<>>, parts)
             body == Join(out, <<47>>)
         IN IF rooted THEN <<47>> \o body ELSE IF body = <<>> THEN <<46>> ELSE body

\* Text without terminal colour codes (ESC [ digits and ; m).
RECURSIVE StripFrom(_, _)
StripFrom(s, i) ==
    LET e == FindIn(s, i, {27}) IN
    IF e = 0 THEN From(s, i)
    ELSE LET m == IF e < Len(s) /\ s[e + 1] = 91 THEN FindNotIn(s, e + 2, Digit \union {59}) ELSE 0
         IN IF m # 0 /\ s[m] = 109
            THEN SubSeq(s, i, e - 1) \o StripFrom(s, m + 1)
            ELSE SubSeq(s, i, e) \o StripFrom(s, e + 1)
StripColours(s) == StripFrom(s, 1)
=============================================================================
