------------------------------- MODULE Gen_C17 -------------------------------
(***************************************************************************)
(* All short histories of spec/Options.tla, for every kind of parser and   *)
(* compiler, as cases for the real code.                                   *)
(***************************************************************************)
EXTENDS Options, CSV, Json, IOUtils
CONSTANTS LEN,      \* steps of a history
          WIDE      \* more options
VARIABLES kind, h, depth, poked
Field == [po |-> <<"NoLocation", "MsgstrPrefix">>, mo |-> <<"Endianness", "HashTable">>, parsepo |-> <<"SkipHeader", "CleanDuplicates">>,
          parsemo |-> <<"Endianness", "MustBeSorted">>, go |-> <<"ExtractAll", "NoHeader">>]
ValueOf == [po |-> <<"true", "<">>, mo |-> <<"2", "false">>, parsepo |-> <<"true", "true">>, parsemo |-> <<"2", "true">>, go |-> <<"true", "true">>]
F(i) == [f |-> Field[kind][i], v |-> ValueOf[kind][i], from |-> 0]
Saved(k) == [f |-> "*", v |-> "", from |-> k]
OptionLists == {<<F(1)>>, <<F(2)>>, <<Saved(Len(h))>>} \union
           (IF WIDE THEN {<<>>, <<Saved(0)>>, <<F(1), F(2)>>, <<F(1), Saved(0), F(2)>>} ELSE {<<Saved(0), F(2)>>})
Step(op, opts, in) == [op |-> op, opts |-> opts, in |-> in, n |-> 3 * Len(h) + (IF depth > 0 THEN 1 ELSE 0)]
Do(s) == h' = Append(h, s) /\ UNCHANGED kind
Init == kind \in {"po", "mo", "parsepo", "parsemo", "go"} /\ h = <<>> /\ depth = 0 /\ poked = FALSE
Next == /\ Len(h) < LEN
        /\ \/ \E o \in OptionLists : Do(Step("apply", o, <<>>)) /\ depth' = depth + 1 /\ UNCHANGED poked
           \/ \E o \in OptionLists : Do(Step("run", o, <<>>)) /\ UNCHANGED <<depth, poked>>
           \/ \E o \in OptionLists : Do(Step("nested", o, <<F(2)>>)) /\ UNCHANGED <<depth, poked>>
           \/ Do(Step("poke", <<F(1)>>, <<>>)) /\ poked' = (poked \/ depth = 0) /\ UNCHANGED depth
           \* What lies below the first configuration is not specified once that is changed.
           \/ ~(depth = 0 /\ poked) /\ Do(Step("restore", <<>>, <<>>)) /\ depth' = (IF depth = 0 THEN 0 ELSE depth - 1) /\ UNCHANGED poked
Emit == Len(h) = LEN => CSVWrite("%1$s", <<ToJson([kind |-> kind, input |-> 0, ops |-> h])>>, IOEnv.CASES)
=============================================================================
