------------------------------ MODULE MC_CatOps ------------------------------
(* All histories of operations on catalogues of up to three messages over small keys. *)
EXTENDS CatOps
CONSTANT MAX          \* messages in a catalogue
VARIABLES es, last      \* the catalogue, and the operation that led to it with the catalogue before
Txt == {<<>>, <<97>>}
Msgs == {[NoEntry EXCEPT !.id = i, !.ctx = c, !.str = s, !.flags = f, !.obs = o] :
          i \in Txt, c \in Txt, s \in Txt, f \in {<<>>, <<FUZZY>>}, o \in BOOLEAN}
NoOp == [op |-> "none", id |-> <<>>, ctx |-> <<>>, e |-> NoEntry]
Init == es = <<>> /\ last = [o |-> NoOp, before |-> <<>>]
Do(o) == es' = Apply(es, o).es /\ last' = [o |-> o, before |-> es]
Add(m) == Len(es) < MAX /\ es' = Append(es, m) /\ last' = [o |-> NoOp, before |-> es]
Next == \/ \E m \in Msgs : Add(m)
        \/ \E op \in Filters : Do([NoOp EXCEPT !.op = op])
        \/ \E i \in Txt, c \in Txt : Do([NoOp EXCEPT !.op = "set", !.id = i, !.ctx = c, !.e = [NoEntry EXCEPT !.id = i, !.ctx = c, !.str = <<98>>]])
View == es
Constraint == Len(es) <= 3
\* What was set is found, and nothing else changed.
MapLaws == last.o.op = "set" =>
    LET i == IndexIdCtx(last.before, last.o.id, last.o.ctx) IN
    /\ es[IndexIdCtx(es, last.o.id, last.o.ctx)] = last.o.e
    /\ Len(es) = Len(last.before) + (IF i = 0 THEN 1 ELSE 0)
    /\ \A k \in 1..Len(last.before) : k # i => es[k] = last.before[k]
IsSub(a, b) == FoldLeft(LAMBDA acc, e : IF acc <= Len(a) /\ a[acc] = e THEN acc + 1 ELSE acc, 1, b) = Len(a) + 1
FilterLaws == last.o.op \in Filters \ {"clean"} =>
    /\ IsSub(es, last.before)
    /\ last.o.op = "cutheader" => Len(last.before) - Len(es) = (IF IndexIdCtx(last.before, <<>>, <<>>) = 0 THEN 0 ELSE 1)
    /\ last.o.op = "noobsolete" => Len(es) = Cardinality({i \in 1..Len(last.before) : ~last.before[i].obs})
    /\ last.o.op = "nofuzzy" => Len(es) = Cardinality({i \in 1..Len(last.before) : ~IsFuzzy(last.before[i])})
    /\ last.o.op = "noempties" => Len(es) = Cardinality({i \in 1..Len(last.before) : last.before[i].id # <<>>})
\* Duplicates are reported exactly when there are some; cleaning leaves the first of each key and is idempotent.
DuplicateLaws ==
    /\ (DuplicateReport(es) = <<>>) = Distinct(es)
    /\ LET c == CleanDuplicates(es) IN
       /\ Distinct(c) /\ CleanDuplicates(c) = c
       /\ [i \in 1..Len(c) |-> Key(c[i])] = FirstKeys(es)
       \* Cleaning keeps the state of the first; resolving, that of a live one.
       /\ \A i \in 1..Len(c) : Resolved([c[i] EXCEPT !.obs = \A j \in 1..Len(es) : Key(es[j]) = Key(c[i]) => es[j].obs], Group(es, Key(c[i]))) \/ \E k \in 1..Len(Group(es, Key(c[i]))) : Translated(Group(es, Key(c[i]))[k])
=============================================================================
