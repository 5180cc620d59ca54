------------------------------- MODULE MC_Header -------------------------------
(***************************************************************************)
(* Histories of edits of small headers, and header texts of up to LEN      *)
(* pieces.  Reading and writing are each other's inverse on fields, edits  *)
(* change what they name, text that holds no field is not seen.            *)
(***************************************************************************)
EXTENDS Header, Ascii
CONSTANTS LEN,      \* pieces of a text
          EDITS     \* edits of a header
VARIABLES fs,       \* the header
          last,     \* the last edit and the header before it
          n,        \* edits done
          txt       \* pieces of a header text
vars == <<fs, last, n, txt>>
HKeys == {B("K"), B("k"), B("Plural-Forms")}
HVals == {<<>>, B("v"), B(":"), B("a: b"), B("nplurals=3; plural=n;")}
Pieces == {B("K"), B(":"), B(" "), <<10>>, B("v"), <<13>>}
NoEdit == [op |-> "none", k |-> <<>>, v |-> <<>>]
Init == /\ fs \in {<<>>} \union {<<Fld(k, v)>> : k \in HKeys, v \in HVals}
        /\ last = [e |-> NoEdit, before |-> <<>>] /\ n = 0 /\ txt = <<>>
Edit(e) == CASE e.op = "set" -> HSet(fs, e.k, e.v) [] e.op = "register" -> HRegister(fs, e.k, e.v)
DoEdit == /\ txt = <<>> /\ n < EDITS
          /\ \E op \in {"set", "register"}, k \in HKeys, v \in HVals :
               LET e == [op |-> op, k |-> k, v |-> v] IN fs' = Edit(e) /\ last' = [e |-> e, before |-> fs]
          /\ n' = n + 1 /\ UNCHANGED txt
DoText == n = 0 /\ fs = <<>> /\ Len(txt) < LEN /\ \E p \in Pieces : txt' = Append(txt, p) /\ UNCHANGED <<fs, last, n>>
Next == DoEdit \/ DoText

\* Written and read again, the fields are the same.
RoundTrip == HFields(FieldsText(fs)) = fs
EditLaws == LET e == last.e b == last.before IN e.op # "none" =>
    /\ \A k \in HKeys \ {e.k} : HLoad(fs, k) = HLoad(b, k)
    /\ e.op = "set" => HLoad(fs, e.k) = e.v
    /\ e.op = "register" => HLoad(fs, e.k) = (IF HIndex(b, e.k) = 0 THEN e.v ELSE HLoad(b, e.k))
    /\ Len(fs) = Len(b) + (IF HIndex(b, e.k) = 0 THEN 1 ELSE 0)
    /\ \A i \in 1..Len(b) : fs[i].k = b[i].k
FormsLaw == Nplurals(fs) = (IF HLoad(fs, B("Plural-Forms")) = B("nplurals=3; plural=n;") THEN 3 ELSE 2)
\* Every line is read on its own.
Str == Flat(txt)
LineLaws == LET f == HFields(Str) IN
    /\ Len(f) <= Len(Split(Str, 10))
    /\ \A i \in 1..Len(txt) : txt[i] = <<10>> =>
         f = HFields(Flat(SubSeq(txt, 1, i - 1))) \o HFields(Flat(SubSeq(txt, i + 1, Len(txt))))
    /\ \A i \in 1..Len(f) : Rng(f[i].k) \cap {10, 58} = {} /\ 10 \notin Rng(f[i].v)
    /\ HFields(FieldsText(f)) = f
=============================================================================
