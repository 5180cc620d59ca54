------------------------------- MODULE Gen_C24 -------------------------------
(***************************************************************************)
(* Everything a destination may do at its first calls, as in Sink: at each *)
(* call it takes nothing, one byte, all but one, or all, and fails or not. *)
(* Every such history is tried with outputs smaller and larger than the    *)
(* buffers, both formats, and every way to reach the writer.               *)
(***************************************************************************)
EXTENDS Catalog, CSV, Json, IOUtils, TLC
CONSTANTS CALLS, BIGCALLS, SIZES, OPTS
VARIABLE c
Resp == [m : {0, 1, -2, -1}, bad : BOOLEAN]
Works == [m |-> -1, bad |-> FALSE]
\* Histories that end with something else than plain success.
Hist(n) == {h \in UNION {[1..k -> Resp] : k \in 1..n} : h[Len(h)] # Works}
Trial(h) == [mode |-> "script", at |-> 0, force |-> FALSE, script |-> h]
None == [mode |-> "none", at |-> 0, force |-> FALSE, script |-> <<>>]
Trials(n) == <<None>> \o SetToSeq({Trial(h) : h \in Hist(n)})
A(n) == [k \in 1..n |-> 97]
Msg(n) == [NoEntry EXCEPT !.id = <<98>>, !.str = A(n)]
Case(f, es, opt, way, ign, ts) == [kind |-> "writer", fmt |-> f, ignore |-> ign, opt |-> opt, way |-> way, es |-> es, trials |-> ts,
                                   tool |-> "", fs |-> <<>>, runs |-> <<>>]
Init == c \in {Case(f, es, o, w, i, Trials(CALLS)) : f \in {"po", "mo"}, es \in {<<>>, <<Msg(1)>>, <<Msg(1), [Msg(1) EXCEPT !.pl = <<99>>, !.id = <<99>>]>>},
                                                    o \in OPTS, w \in 0..2, i \in BOOLEAN}
              \union {Case(f, <<Msg(n)>>, 0, w, FALSE, Trials(BIGCALLS)) : f \in {"po", "mo"}, n \in SIZES, w \in 0..2}
Next == UNCHANGED c
Emit == CSVWrite("%1$s", <<ToJson(c)>>, IOEnv.CASES)
=============================================================================
