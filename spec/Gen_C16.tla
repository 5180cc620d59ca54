------------------------------- MODULE Gen_C16 -------------------------------
(***************************************************************************)
(* Histories: a catalogue is made from others, it and its source are used, *)
(* changed, and used again.                                                *)
(***************************************************************************)
EXTENDS Catalog, Ascii, CSV, Json, IOUtils, TLC
CONSTANT MODES      \* ways to run an operation
VARIABLES pair, h
Loc(f, l) == [f |-> B(f), l |-> l]
X(id, str) == [NoEntry EXCEPT !.id = B(id), !.str = B(str)]
Hd == [NoEntry EXCEPT !.str = B("Language: es~Plural-Forms: nplurals=2; plural=(n != 1);~"), !.com = <<B("t")>>]
P2 == [NoEntry EXCEPT !.id = B("p"), !.pl = B("ps"), !.forms = <<[i |-> 1, s |-> B("2")], [i |-> 0, s |-> B("1")]>>, !.com = <<B("c")>>, !.locs = <<Loc("b.go", 2)>>]
\* Every operation changes something here.
Mixed == <<[X("b", "y") EXCEPT !.locs = <<Loc("b.go", 9), Loc("a.go", 1)>>, !.flags = <<B("c-format")>>], Hd, P2,
           [X("f", "z") EXCEPT !.flags = <<FUZZY>>, !.ext = <<B("x")>>], [X("o", "w") EXCEPT !.obs = TRUE, !.prev = <<B("v")>>],
           [X("b", "other") EXCEPT !.locs = <<Loc("c.go", 1)>>, !.com = <<B("k")>>], [NoEntry EXCEPT !.ctx = B("c")], X("a", "")>>
\* And nothing here.
Tidy == <<[X("a", "x") EXCEPT !.locs = <<Loc("a.go", 1)>>], [P2 EXCEPT !.forms = <<@[2], @[1]>>]>>
Renamed == <<Hd, [X("aa", "") EXCEPT !.locs = <<Loc("n.go", 4)>>], [P2 EXCEPT !.forms = <<>>, !.com = <<>>, !.locs = <<Loc("n.go", 5)>>], X("ff", "")>>
Pairs == <<<<Mixed, Renamed>>, <<Tidy, Tidy>>, <<Tidy, Mixed>>>>
Filters == {"cutheader", "obsolete", "fuzzy", "empties", "clean", "solve", "solveprior", "merge", "concat"}
Looks == {"compilepo", "compilemo", "compileagain", "validate", "format", "header", "query"}
Op(op, a, b, to, n) == [op |-> op, a |-> a, b |-> b, to |-> to, n |-> n]
Init == pair \in 1..3 /\ h = <<>>
First == \E f \in Filters, n \in MODES : h' = <<Op(f, 0, 1, 3, n)>>
Second == \/ \E f \in Filters, a \in {0, 3} : h' = Append(h, Op(f, a, 3 - a, 4, 7))
          \/ \E f \in Looks, a \in {0, 3} : h' = Append(h, Op(f, a, 3 - a, 0, 5))
          \/ \E c \in {"sort", "set"} : h' = Append(h, Op(c, 3, 1, 0, 0))
Third == \E c \in {"sort", "set"} : h' = Append(h, Op(c, IF h[2].to = 4 THEN 4 ELSE 3, 0, 0, 2)) \* then ask again
Next == UNCHANGED pair /\ CASE h = <<>> -> First [] Len(h) = 1 -> Second [] Len(h) = 2 -> Third [] OTHER -> FALSE
Emit == Len(h) = 3 => CSVWrite("%1$s", <<ToJson([cats |-> Pairs[pair], ops |-> Append(h, [h[1] EXCEPT !.to = 5])])>>, IOEnv.CASES)
=============================================================================
