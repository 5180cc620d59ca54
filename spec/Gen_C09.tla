------------------------------- MODULE Gen_C09 -------------------------------
(***************************************************************************)
(* Histories of operations on small catalogues, as the model of            *)
(* MC_CatOps, as cases for the real code.                                  *)
(***************************************************************************)
EXTENDS CatOps, CSV, Json, IOUtils, TLC
CONSTANTS MAX,      \* messages at first
          LEN       \* operations
VARIABLES es, first, h
Txt == {<<>>, <<97>>}
M(id, ctx, str, flags, obs) == [NoEntry EXCEPT !.id = id, !.ctx = ctx, !.str = str, !.flags = flags, !.obs = obs]
Msgs == {M(i, c, <<98>>, <<>>, FALSE) : i \in Txt, c \in Txt}
        \union {M(<<97>>, c, <<>>, <<FUZZY>>, FALSE) : c \in Txt} \union {M(i, <<>>, <<99>>, <<>>, TRUE) : i \in Txt}
NoOp == [op |-> "none", id |-> <<>>, ctx |-> <<>>, e |-> NoEntry, rep |-> TRUE]
Updates == {[NoOp EXCEPT !.op = f] : f \in Filters} \union
           {[NoOp EXCEPT !.op = "set", !.id = i, !.ctx = c, !.e = M(i, c, <<100>>, <<>>, FALSE)] : i \in Txt, c \in Txt}
Queries == {[NoOp EXCEPT !.op = q, !.id = i, !.ctx = c] : q \in {"index", "indexuid", "contains", "load", "loaduid"}, i \in Txt, c \in Txt}
           \union {[NoOp EXCEPT !.op = q] : q \in {"hasheader", "dups"}}
AllQueries == SetToSeq(Queries)
Init == es \in UNION {[1..n -> Msgs] : n \in 0..MAX} /\ first = es /\ h = <<>>
Next == /\ Len(h) < LEN
        /\ \E o \in Updates : es' = Apply(es, o).es /\ h' = Append(h, o)
        /\ UNCHANGED first
\* After a history every question is asked.
Emit == Len(h) = LEN => CSVWrite("%1$s", <<ToJson([es |-> first, ops |-> h \o AllQueries])>>, IOEnv.CASES)
=============================================================================
