------------------------------- MODULE Gen_C25 -------------------------------
(***************************************************************************)
(* Every pair of operations, at the same time on the same inputs, and      *)
(* every operation in the middle of every one that reads, writes or asks.  *)
(* The inputs are the harness'.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, CSV, Json, IOUtils, TLC
CONSTANTS WAYS,      \* ways to run an operation
          ROUNDS
VARIABLE c
Asking == <<"readpo", "readmo", "writepo", "writemo", "extract", "sortby", "solveby">>
Ops == Asking \o <<"cutheader", "obsolete", "fuzzy", "empties", "clean", "solve", "solveprior", "merge", "concat",
                   "compilepo", "compilemo", "compileagain", "validate", "format", "header", "query", "sort", "set">>
Op(k, n) == [op |-> Ops[k], a |-> 0, b |-> 1, n |-> n]
Case(kind, ps) == [kind |-> kind, fresh |-> FALSE, rounds |-> ROUNDS, cats |-> <<>>, texts |-> <<>>, mos |-> <<>>, srcs |-> <<>>, progs |-> ps]
Pairs == {<<i, j>> \in (1..Len(Ops)) \X (1..Len(Ops)) : i <= j}
Free == {Case("free", <<<<Op(p[1], n)>>, <<Op(p[2], n)>>, <<Op(p[1], n + 1)>>, <<Op(p[2], n + 1)>>>>) : p \in Pairs, n \in WAYS}
Gate == {Case("gate", <<<<Op(i, n)>>, <<Op(k, n)>>>>) : i \in 1..Len(Asking), k \in 1..Len(Ops), n \in WAYS}
Init == c \in Free \union Gate
Next == UNCHANGED c
Emit == CSVWrite("%1$s", <<ToJson(c)>>, IOEnv.CASES)
=============================================================================
