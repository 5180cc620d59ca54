-------------------------------- MODULE PoText --------------------------------
(***************************************************************************)
(* What PO text means: a reader of the gettext PO format as a lexer and a  *)
(* parser machine over byte strings.  Read(text, opt) is                   *)
(*   [st |-> "ok",  es |-> messages]   a sequence of complete messages,    *)
(*   [st |-> "bad", es |-> <<>>]       not one: must be reported,          *)
(*   [st |-> "any", es |-> <<>>]       the format does not decide.         *)
(* opt = [marker |-> bytes after "#" of obsolete lines, clean |-> BOOLEAN  *)
(* (merge duplicates), obsolete |-> BOOLEAN (read obsolete messages),      *)
(* skip |-> BOOLEAN (drop the header message), nocom |-> BOOLEAN (drop     *)
(* translator, extracted and previous comments), noall |-> BOOLEAN (ignore *)
(* everything that follows a "#", obsolete messages too)].                 *)
(***************************************************************************)
EXTENDS Catalog

QUOTE == 34   BSL == 92   HASH == 35   NL == 10   CR == 13   SP == 32   COLON == 58   BAR == 124   COMMA == 44   DOT == 46   TILDE == 126

KwCtxt == <<109, 115, 103, 99, 116, 120, 116>>
KwIdPl == <<109, 115, 103, 105, 100, 95, 112, 108, 117, 114, 97, 108>>
KwId   == <<109, 115, 103, 105, 100>>
KwStr  == <<109, 115, 103, 115, 116, 114>>

DefaultOpt == [marker |-> <<TILDE>>, clean |-> TRUE, obsolete |-> TRUE, skip |-> FALSE, nocom |-> FALSE, noall |-> FALSE]

(*************************** strings and escapes ***************************)
SimpleEscape == [c \in {97, 98, 102, 110, 114, 116, 118, BSL, QUOTE} |->
    CASE c = 97 -> 7 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13
      [] c = 116 -> 9 [] c = 118 -> 11 [] OTHER -> c]
Octal == 48..55

\* One byte of a string literal: m is "in" the string, "esc" behind a backslash, "oct" or "hex"
\* in a numeric escape with n digits to go, or "end" behind the closing quote at position p.
StringStep(a, c) ==
    LET put(b) == [a EXCEPT !.p = @ + 1, !.m = "in", !.v = Append(@, b), !.x = 0]
        go(m, n, x) == [a EXCEPT !.p = @ + 1, !.m = m, !.n = n, !.x = x]
        odd == [a EXCEPT !.p = @ + 1, !.m = "in", !.st = "any"]
    IN CASE a.m = "end" -> a
         [] a.m = "in" /\ c = QUOTE -> [a EXCEPT !.m = "end"]
         [] a.m = "in" /\ c = BSL -> go("esc", 0, 0)
         [] a.m = "in" -> IF a.hex /\ c \in Hex THEN [put(c) EXCEPT !.st = "any", !.hex = FALSE] ELSE [put(c) EXCEPT !.hex = FALSE]
         [] a.m = "esc" ->
              IF c \in DOMAIN SimpleEscape THEN [put(SimpleEscape[c]) EXCEPT !.hex = FALSE]
              ELSE IF c \in 48..51 THEN [go("oct", 2, c - 48) EXCEPT !.hex = FALSE]
              ELSE IF c = 120 THEN [go("hex", 2, 0) EXCEPT !.hex = FALSE]
              ELSE odd
         [] a.m = "oct" ->
              IF c \notin Octal THEN odd
              ELSE IF a.n = 1 THEN put(a.x * 8 + c - 48) ELSE go("oct", 1, a.x * 8 + c - 48)
         [] a.m = "hex" ->
              IF c \notin Hex THEN odd
              ELSE IF a.n = 1 THEN [put(a.x * 16 + HexVal(c)) EXCEPT !.hex = TRUE] ELSE go("hex", 1, HexVal(c))

\* The string literal whose content begins at i: st, its value v, and the position p of its end (0: none).
StringAt(s, i) ==
    LET j == FindIn(s, i, {QUOTE, BSL}) IN
    IF j = 0 THEN [st |-> "bad", v |-> <<>>, p |-> 0]
    ELSE IF s[j] = QUOTE THEN [st |-> "ok", v |-> SubSeq(s, i, j - 1), p |-> j]
    ELSE LET r == FoldLeft(StringStep, [m |-> "in", n |-> 0, x |-> 0, hex |-> FALSE, st |-> "ok", v |-> SubSeq(s, i, j - 1), p |-> j],
                           From(s, j))
         IN IF r.m # "end" THEN [st |-> "bad", v |-> <<>>, p |-> 0]
            ELSE [st |-> r.st, v |-> r.v, p |-> r.p]

(********************************** lexer **********************************)
\* Tokens [k, v, first]: k in "str" "int" "lb" "rb" "ctxt" "idpl" "id" "msgstr" "com" "bad" "any".
Tok(k, v, first) == [k |-> k, v |-> v, first |-> first]

RECURSIVE LexLine(_, _, _)
LexLine(s, i0, first) ==
    LET i == FindNotIn(s, i0, WS) IN
    IF i = 0 THEN <<>>
    ELSE LET c == s[i] IN
    CASE c = HASH -> <<Tok("com", From(s, i), first)>>
      [] c = QUOTE ->
           LET u == StringAt(s, i + 1) IN
           IF u.p = 0 THEN <<Tok("bad", <<>>, first)>>
           ELSE <<Tok(IF u.st = "ok" THEN "str" ELSE u.st, u.v, first)>> \o LexLine(s, u.p + 1, FALSE)
      [] c \in Digit ->
           LET e == FindNotIn(s, i, Digit)
               d == IF e = 0 THEN From(s, i) ELSE SubSeq(s, i, e - 1)
           IN <<IF Len(d) > 9 \/ (Len(d) > 1 /\ d[1] = 48) THEN Tok("any", <<>>, first) ELSE Tok("int", <<DecVal(d)>>, first)>>
              \o (IF e = 0 THEN <<>> ELSE LexLine(s, e, FALSE))
      [] c = 91 -> <<Tok("lb", <<>>, first)>> \o LexLine(s, i + 1, FALSE)
      [] c = 93 -> <<Tok("rb", <<>>, first)>> \o LexLine(s, i + 1, FALSE)
      [] c = 109 /\ StartsAt(s, i, KwCtxt) -> <<Tok("ctxt", <<>>, first)>> \o LexLine(s, i + 7, FALSE)
      [] c = 109 /\ StartsAt(s, i, KwIdPl) -> <<Tok("idpl", <<>>, first)>> \o LexLine(s, i + 12, FALSE)
      [] c = 109 /\ StartsAt(s, i, KwId) -> <<Tok("id", <<>>, first)>> \o LexLine(s, i + 5, FALSE)
      [] c = 109 /\ StartsAt(s, i, KwStr) -> <<Tok("msgstr", <<>>, first)>> \o LexLine(s, i + 6, FALSE)
      [] c = 11 -> <<Tok("any", <<>>, first)>>
      [] OTHER -> <<Tok("bad", <<>>, first)>>

LexLines(lines) == Flat([n \in 1..Len(lines) |-> LexLine(lines[n], 1, TRUE)])

(***************************** obsolete messages ***************************)
IsMarked(t, opt) == t.k = "com" /\ StartsWith(t.v, <<HASH>> \o opt.marker)

\* What an obsolete line holds behind its mark.
Unmark(t, opt) ==
    LET r == TrimLeft(From(t.v, 2 + Len(opt.marker)), {SP}) IN
    IF r # <<>> /\ r[1] = BAR THEN <<HASH>> \o r ELSE r

\* Separates the tokens of live messages from the lines of obsolete ones: comments belong
\* to the message they precede.
SplitObsolete(toks, opt) ==
    LET step(a, t) ==
          IF IsMarked(t, opt)
          THEN [a EXCEPT !.obs = @ \o [i \in 1..Len(a.pend) |-> a.pend[i].v] \o <<Unmark(t, opt)>>,
                         !.pend = <<>>, !.any = @ \/ ~t.first \/ StartsWith(Unmark(t, opt), <<HASH>> \o opt.marker)]
          ELSE IF t.k = "com" THEN [a EXCEPT !.pend = Append(@, t)]
          ELSE [a EXCEPT !.live = (@ \o a.pend) \o <<t>>, !.pend = <<>>]
        r == FoldLeft(step, [live |-> <<>>, obs |-> <<>>, pend |-> <<>>, any |-> FALSE], toks)
    IN [live |-> r.live \o r.pend, obs |-> r.obs, any |-> r.any]

(********************************* comments ********************************)
\* References "file:line file:line" (the file name may hold blanks); words without line get -1.
RECURSIVE RefEnd(_, _)
RefEnd(s, i) == \* the end of the digits of the first ":digits" at or behind i that a blank or the end follows, or 0
    LET c == FindIn(s, i, {COLON}) IN
    IF c = 0 THEN 0
    ELSE LET e == FindNotIn(s, c + 1, Digit)
             stop == IF e = 0 THEN Len(s) + 1 ELSE e
         IN IF stop > c + 1 /\ (stop > Len(s) \/ s[stop] \in WS) THEN stop - 1 ELSE RefEnd(s, c + 1)
RECURSIVE Refs(_)
Refs(s0) ==
    LET s == TrimLeft(s0, WS)
        e == IF Len(s) < 2 THEN 0 ELSE RefEnd(s, 2)
    IN IF e = 0 THEN [i \in 1..Len(Fields(s, WS)) |-> [f |-> Fields(s, WS)[i], l |-> -1]]
       ELSE LET c == CHOOSE c \in 1..e : s[c] = COLON /\ \A k \in (c + 1)..e : s[k] \in Digit
            IN <<[f |-> SubSeq(s, 1, c - 1), l |-> IF e - c > 9 THEN -2 ELSE DecVal(SubSeq(s, c + 1, e))]>>
               \o Refs(From(s, e + 1))

FlagList(s) == SelectSeq([i \in 1..Len(Split(s, COMMA)) |-> Trim(Split(s, COMMA)[i], WS \union {11})], LAMBDA f : f # <<>>)

AddComment(e, c0) ==
    LET c == IF c0[Len(c0)] = CR THEN SubSeq(c0, 1, Len(c0) - 1) ELSE c0
        body == TrimLeft(From(c, 3), {SP})
        kind == IF Len(c) < 2 THEN SP ELSE c[2]
    IN CASE kind = COLON -> [e EXCEPT !.locs = @ \o Refs(body)]
         [] kind = DOT -> [e EXCEPT !.ext = Append(@, body)]
         [] kind = COMMA -> [e EXCEPT !.flags = @ \o FlagList(body)]
         [] kind = BAR -> [e EXCEPT !.prev = Append(@, body)]
         [] OTHER -> [e EXCEPT !.com = Append(@, TrimLeft(From(c, 2), {SP}))]
AddComments(e, cs) == FoldLeft(LAMBDA a, t : AddComment(a, t.v), e, cs)

(********************************** parser *********************************)
\* One step per token; q is what has been read of the current message.
ParseStep(a, t) ==
    LET fin == Append(a.es, a.cur)
        new == [AddComments(NoEntry, a.pend) EXCEPT !.obs = a.obs]
        inside == [a EXCEPT !.any = @ \/ a.pend # <<>>]   \* a comment inside the message
        bad == [a EXCEPT !.bad = TRUE]
    IN
    IF t.k = "com" THEN
        IF a.q \in {"start", "str", "ps"} THEN [a EXCEPT !.pend = Append(@, t)] ELSE [a EXCEPT !.any = TRUE]
    ELSE IF t.k = "any" THEN [a EXCEPT !.any = TRUE]
    ELSE IF a.bad THEN a
    ELSE CASE t.k = "ctxt" /\ a.q \in {"start", "str", "ps"} ->
                [a EXCEPT !.es = IF a.q = "start" THEN @ ELSE fin, !.cur = new, !.pend = <<>>, !.q = "ctx0"]
           [] t.k = "id" /\ a.q \in {"start", "str", "ps"} ->
                [a EXCEPT !.es = IF a.q = "start" THEN @ ELSE fin, !.cur = new, !.pend = <<>>, !.q = "id0"]
           [] t.k = "id" /\ a.q = "ctx" -> [a EXCEPT !.q = "id0"]
           [] t.k = "str" /\ a.q \in {"ctx0", "ctx"} -> [a EXCEPT !.cur.ctx = @ \o t.v, !.q = "ctx"]
           [] t.k = "str" /\ a.q \in {"id0", "id"} -> [a EXCEPT !.cur.id = @ \o t.v, !.q = "id"]
           [] t.k = "str" /\ a.q \in {"pl0", "pl"} -> [a EXCEPT !.cur.pl = @ \o t.v, !.q = "pl"]
           [] t.k = "str" /\ a.q \in {"str0", "str"} -> [inside EXCEPT !.cur.str = @ \o t.v, !.q = "str"]
           [] t.k = "str" /\ a.q \in {"ps3", "ps"} ->
                [inside EXCEPT !.cur.forms[Len(a.cur.forms)].s = @ \o t.v, !.q = "ps"]
           [] t.k = "msgstr" /\ a.q = "id" -> [a EXCEPT !.q = "str0"]
           [] t.k = "idpl" /\ a.q = "id" -> [a EXCEPT !.q = "pl0"]
           [] t.k = "msgstr" /\ a.q \in {"pl", "ps"} -> [inside EXCEPT !.q = "ps0"]
           [] t.k = "lb" /\ a.q = "ps0" -> [a EXCEPT !.q = "ps1"]
           [] t.k = "int" /\ a.q = "ps1" ->
                [a EXCEPT !.cur.forms = Append(@, [i |-> t.v[1], s |-> <<>>]), !.q = "ps2"]
           [] t.k = "rb" /\ a.q = "ps2" -> [a EXCEPT !.q = "ps3"]
           [] OTHER -> bad

ParseToks(toks, obs) ==
    LET r == FoldLeft(ParseStep, [es |-> <<>>, cur |-> NoEntry, q |-> "start", pend |-> <<>>, any |-> FALSE, bad |-> FALSE, obs |-> obs], toks)
        es == IF r.q \in {"str", "ps"} THEN Append(r.es, r.cur) ELSE r.es
        odd == \E i \in 1..Len(es) : \E j \in 1..Len(es[i].locs) : es[i].locs[j].l = -2
    IN [st |-> IF r.any \/ odd THEN "any" ELSE IF r.bad \/ r.q \notin {"start", "str", "ps"} THEN "bad" ELSE "ok",
        dead |-> r.any \/ r.bad,
        es |-> es]

Tokens(text, opt) ==
    LET toks == LexLines(Split(text, NL))
    IN IF opt.noall THEN SelectSeq(toks, LAMBDA t : t.k # "com") ELSE toks

DropComments(es) == [i \in 1..Len(es) |-> [es[i] EXCEPT !.com = <<>>, !.ext = <<>>, !.prev = <<>>]]

Read(text, opt) ==
    IF ~ValidUtf8(text) \/ StartsWith(text, <<239, 187, 191>>) THEN [st |-> "any", es |-> <<>>]
    ELSE LET sp == SplitObsolete(Tokens(text, opt), opt)
             live == ParseToks(sp.live, FALSE)
             obs == ParseToks(LexLines(sp.obs), TRUE)
             read == IF opt.obsolete THEN live.es \o obs.es ELSE live.es
             all == IF opt.nocom THEN DropComments(read) ELSE read
             kept == IF opt.skip THEN CutHeader(all) ELSE all
             oddHeader == opt.skip /\ \E i \in 1..Len(obs.es) : IsHeader(obs.es[i])
             st == IF sp.any \/ live.st = "any" \/ (opt.obsolete /\ (obs.st = "any" \/ oddHeader)) THEN "any"
                   ELSE IF live.st = "bad" \/ (opt.obsolete /\ obs.st = "bad") THEN "bad" ELSE "ok"
         IN [st |-> st, es |-> IF st # "ok" THEN <<>> ELSE IF opt.clean THEN CleanDuplicates(kept) ELSE kept]

\* No continuation of the text is a sequence of complete messages, or the format does not decide.
Dead(text) ==
    LET sp == SplitObsolete(Tokens(text, DefaultOpt), DefaultOpt)
        live == ParseToks(sp.live, FALSE)
        obs == ParseToks(LexLines(sp.obs), TRUE)
    IN sp.any \/ live.dead \/ obs.dead
=============================================================================
