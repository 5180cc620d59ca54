------------------------------- MODULE PoLayout -------------------------------
(***************************************************************************)
(* The layouts in which one catalogue can be written as PO text: what the  *)
(* format leaves free.  Write(es, y) is the text of catalogue es in layout *)
(*   y = [nl : line end, final : BOOLEAN (newline at the end),             *)
(*        indent : blanks before and between tokens,                       *)
(*        gap : blank lines between messages,                              *)
(*        split : how a string is cut into pieces ("whole", "head": an     *)
(*                empty piece first, "chars": one piece per byte),         *)
(*        many : BOOLEAN (several references/flags in one comment),        *)
(*        order : order of the comment kinds,                              *)
(*        obsat : "end" or "mixed" (obsolete messages among live ones),    *)
(*        oct : BOOLEAN (octal escapes for everything escaped)].           *)
(***************************************************************************)
EXTENDS PoText

OctEsc(c) == <<BSL, 48 + (c \div 64), 48 + ((c \div 8) % 8), 48 + (c % 8)>>
EscByte(c, oct) ==
    IF c \in {QUOTE, BSL} THEN IF oct THEN OctEsc(c) ELSE <<BSL, c>>
    ELSE IF c = NL THEN IF oct THEN OctEsc(c) ELSE <<BSL, 110>>
    ELSE IF c = 9 THEN IF oct THEN OctEsc(c) ELSE <<BSL, 116>>
    ELSE IF c < 32 \/ c = 127 THEN OctEsc(c)
    ELSE <<c>>
Esc(s, oct) == Flat([i \in 1..Len(s) |-> EscByte(s[i], oct)])
Quoted(s, oct) == <<QUOTE>> \o Esc(s, oct) \o <<QUOTE>>

\* A continuation byte must stay with its first byte.
Pieces(s) ==
    FoldLeft(LAMBDA acc, c : IF c \in 128..191 /\ acc # <<>> THEN [acc EXCEPT ![Len(acc)] = Append(@, c)] ELSE Append(acc, <<c>>), <<>>, s)

KwLines(kw, s, y) ==
    LET sep == IF y.indent THEN <<SP, 9>> ELSE <<SP>>
        lead == IF y.indent THEN <<SP, SP>> ELSE <<>>
        ps == Pieces(s)
    IN CASE y.split = "whole" \/ s = <<>> -> <<lead \o kw \o (IF y.split = "glued" THEN <<>> ELSE sep) \o Quoted(s, y.oct)>>
         [] y.split = "head" -> <<lead \o kw \o sep \o <<QUOTE, QUOTE>>, lead \o Quoted(s, y.oct)>>
         [] y.split = "glued" -> <<lead \o kw \o Quoted(<<>>, y.oct) \o Quoted(s, y.oct)>>
         [] OTHER -> <<lead \o kw \o sep \o Quoted(ps[1], y.oct)>> \o [i \in 1..(Len(ps) - 1) |-> lead \o Quoted(ps[i + 1], y.oct)]

FormKw(n) == KwStr \o <<91>> \o Dec(n) \o <<93>>
MessageLines(e, y) ==
    (IF e.ctx = <<>> THEN <<>> ELSE KwLines(KwCtxt, e.ctx, y)) \o KwLines(KwId, e.id, y)
    \o (IF IsPlural(e)
        THEN KwLines(KwIdPl, e.pl, y) \o Flat([i \in 1..Len(e.forms) |-> KwLines(FormKw(e.forms[i].i), e.forms[i].s, y)])
        ELSE KwLines(KwStr, e.str, y))

Com(mark, texts) == [i \in 1..Len(texts) |-> (IF mark = <<>> THEN <<HASH>> ELSE <<HASH>> \o mark) \o (IF texts[i] = <<>> THEN <<>> ELSE <<SP>> \o texts[i])]
RefText(l) == IF l.l < 0 THEN l.f ELSE l.f \o <<COLON>> \o Dec(l.l) \* l < 0: no line
OneOrMany(mark, xs, sep, y) ==
    IF xs = <<>> THEN <<>> ELSE IF y.many THEN Com(mark, <<Join(xs, sep)>>) ELSE Com(mark, xs)
Block(k, e, y) ==
    CASE k = "com" -> Com(<<>>, e.com)
      [] k = "ext" -> Com(<<DOT>>, e.ext)
      [] k = "loc" -> OneOrMany(<<COLON>>, [i \in 1..Len(e.locs) |-> RefText(e.locs[i])], <<SP>>,
                                 [y EXCEPT !.many = @ /\ \A i, j \in 1..Len(e.locs) : (e.locs[i].l < 0) = (e.locs[j].l < 0)])
      [] k = "flag" -> OneOrMany(<<COMMA>>, e.flags, <<COMMA, SP>>, y)
      [] k = "prev" -> Com(<<BAR>>, e.prev)
Orders == {<<"com", "ext", "loc", "flag", "prev">>, <<"prev", "flag", "loc", "ext", "com">>, <<"loc", "prev", "com", "flag", "ext">>}

CommentLines(e, y) == Flat([i \in 1..5 |-> Block(y.order[i], [e EXCEPT !.prev = IF e.obs THEN <<>> ELSE @], y)])
ObsLine(l, y) == <<HASH, TILDE>> \o (IF l[1] = BAR \/ y.indent THEN <<>> ELSE <<SP>>) \o l
EntryLines(e, y) ==
    CommentLines(e, y)
    \o (IF e.obs
        THEN LET prev == Com(<<BAR>>, e.prev)
                 body == [i \in 1..Len(prev) |-> From(prev[i], 2)] \o MessageLines(e, y)
             IN [i \in 1..Len(body) |-> ObsLine(body[i], y)]
        ELSE MessageLines(e, y))

Write(es, y) ==
    LET gap == [i \in 1..y.gap |-> <<>>]
        all == Flat([i \in 1..Len(es) |-> (IF i = 1 THEN <<>> ELSE gap) \o EntryLines(es[i], y)])
    IN Join(all, y.nl) \o (IF y.final THEN y.nl ELSE <<>>)

Meaning(es) == Live(es) \o Obsolete(es)
=============================================================================
