------------------------------- MODULE Gen_C12 -------------------------------
(* The header texts and the histories of edits of MC_Header as cases for the real code. *)
EXTENDS MC_Header, CSV, Json, IOUtils
VARIABLE h          \* the header at first and the edits since
GInit == Init /\ h = [fs |-> fs, ops |-> <<>>]
GNext == Next /\ h' = IF n' > n THEN [h EXCEPT !.ops = Append(@, last'.e)] ELSE h
None == [template |-> FALSE, nplurals |-> 0, vals |-> [i \in 1..13 |-> <<>>], extra |-> <<>>]
Ops(es) == Flat([i \in 1..Len(es) |-> <<[op |-> es[i].op, k |-> es[i].k, v |-> <<es[i].v>>], [op |-> "load", k |-> es[i].k, v |-> <<>>]>>])
Case(kind, str, f, ops) ==
    [kind |-> kind, str |-> str, fuzzy |-> Len(f) = 1, fs |-> f, ops |-> ops, cfg |-> None, r |-> Len(str) + Len(ops)]
Write(c) == CSVWrite("%1$s", <<ToJson(c)>>, IOEnv.CASES)
Emit == CASE txt # <<>> -> Write(Case("text", Str, <<>>, <<>>))
          [] n = EDITS -> Write(Case("fields", <<>>, h.fs, Ops(h.ops)))
          [] OTHER -> TRUE
=============================================================================
