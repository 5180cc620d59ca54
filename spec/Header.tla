-------------------------------- MODULE Header --------------------------------
(***************************************************************************)
(* Header fields: sequences of [k, v : byte string].                       *)
(***************************************************************************)
EXTENDS Catalog

Fld(k, v) == [k |-> k, v |-> v]

\* One field per line, split at the first colon; other lines hold none.
LineField(line) ==
    LET c == FindIn(line, 1, {58}) IN
    IF c = 0 THEN <<>> ELSE <<Fld(TrimRight(SubSeq(line, 1, c - 1), WS), TrimLeft(From(line, c + 1), WS))>>
HFields(str) == Flat([i \in 1..Len(Split(str, 10)) |-> LineField(Split(str, 10)[i])])

FieldText(f) == f.k \o <<58, 32>> \o f.v \o <<10>>
FieldsText(fs) == Flat([i \in 1..Len(fs) |-> FieldText(fs[i])])

HIndex(fs, k) == SelectInSeq(fs, LAMBDA f : f.k = k)
HLoad(fs, k) == LET i == HIndex(fs, k) IN IF i = 0 THEN <<>> ELSE fs[i].v
HSet(fs, k, v) == LET i == HIndex(fs, k) IN IF i = 0 THEN Append(fs, Fld(k, v)) ELSE [fs EXCEPT ![i].v = v]
HRegister(fs, k, v) == IF HIndex(fs, k) = 0 THEN Append(fs, Fld(k, v)) ELSE fs

KPluralForms == <<80, 108, 117, 114, 97, 108, 45, 70, 111, 114, 109, 115>>
KNplurals == <<110, 112, 108, 117, 114, 97, 108, 115>>

KPlural == <<112, 108, 117, 114, 97, 108>>
\* The last value of key k in a list of assignments separated by semicolons.
ValueIn(v, k) ==
    LET parts == Split(Trim(v, WS), 59)
        step(acc, p) ==
          LET c == FindIn(p, 1, {61}) IN
          IF c # 0 /\ Trim(SubSeq(p, 1, c - 1), {32}) = k THEN Trim(From(p, c + 1), {32}) ELSE acc
    IN FoldLeft(step, <<>>, parts)
\* The declared number of plural forms, or 2.
NpluralsIn(v) ==
    LET val == ValueIn(v, KNplurals) IN
    IF val # <<>> /\ Rng(val) \subseteq Digit /\ Len(val) <= 9 THEN DecVal(val) ELSE 2
Nplurals(fs) == NpluralsIn(HLoad(fs, KPluralForms))

\* The bytes of a name of letters and hyphens.
Letters == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Smalls == "abcdefghijklmnopqrstuvwxyz"
Code(c) == IF c = "-" THEN 45
           ELSE IF \E i \in 1..26 : SubSeq(Letters, i, i) = c THEN 64 + CHOOSE i \in 1..26 : SubSeq(Letters, i, i) = c
           ELSE 96 + CHOOSE i \in 1..26 : SubSeq(Smalls, i, i) = c
Name(str) == [i \in 1..Len(str) |-> Code(SubSeq(str, i, i))]

\* The fields that have their own setting, in the order of the settings.
Settings == <<Name("Project-Id-Version"), Name("Report-Msgid-Bugs-To"), Name("POT-Creation-Date"), Name("PO-Revision-Date"), Name("Last-Translator"),
              Name("Language-Team"), Name("Language"), Name("MIME-Version"), Name("X-Generator")>>
Known == Rng(Settings) \union {Name("Content-Type"), Name("Content-Transfer-Encoding"), KPluralForms}
\* The settings that a header with the fields fs holds: one for each of Settings, the plural rule, the number of forms and all other fields.
SettingsOf(fs) ==
    [vals |-> [i \in 1..Len(Settings) |-> IF i = 8 /\ HLoad(fs, Settings[i]) = <<>> THEN <<49, 46, 48>> ELSE HLoad(fs, Settings[i])],
     plural |-> ValueIn(HLoad(fs, KPluralForms), KPlural), nplurals |-> Nplurals(fs), extra |-> SelectSeq(fs, LAMBDA f : f.k \notin Known)]

\* The header of a catalogue.
HeaderFields(es) == LET i == IndexIdCtx(es, <<>>, <<>>) IN IF i = 0 THEN <<>> ELSE HFields(es[i].str)
=============================================================================
