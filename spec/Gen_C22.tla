-------------------------------- MODULE Gen_C22 --------------------------------
(***************************************************************************)
(* The beginnings of ToolRun's behaviours as runs of the real tools: every *)
(* combination of what is at the inputs' and the output's place, and of    *)
(* which of them are the same file.  Every run is made twice, so that the  *)
(* second one finds what the first one left.                               *)
(***************************************************************************)
EXTENDS ToolRun, TLC, Json, CSV, IOUtils
L == INSTANCE MoLayout
A == INSTANCE Ascii
VARIABLES tool, dir
CONSTANT WIDE

Tools == {"msgofmt", "msgounfmt", "msgocat", "msgomerge", "xgotext"}
InExt == [msgofmt |-> A!B(".po"), msgounfmt |-> A!B(".mo"), msgocat |-> A!B(".po"), msgomerge |-> A!B(".po"), xgotext |-> A!B(".go")]
OutExt == [msgofmt |-> A!B(".mo"), msgounfmt |-> A!B(".po"), msgocat |-> A!B(".po"), msgomerge |-> A!B(".po"), xgotext |-> A!B(".pot")]
\* The file of path p: two that have the extension of inputs, one that has that of outputs.
FileName(t, p) == CASE p = "p1" -> A!B("a") \o InExt[t] [] p = "p2" -> A!B("b") \o InExt[t] [] p = "p3" -> A!B("out") \o OutExt[t]
Kind(t, p) == IF p = "p3" THEN OutExt[t] ELSE InExt[t]

Po(id, str) == A!B("#: ") \o id \o A!B(".go:1~msgid \"") \o id \o A!B("\"~msgstr \"") \o str \o A!B("\"~")
Mo(id, str) == L!Make(<<L!M(<<>>, id, <<>>, str, <<>>)>>, L!Usual)
Go(id) == A!B("package p~~import \"github.com/leonelquinteros/gotext\"~~var v = gotext.Get(\"") \o id \o A!B("\")~")
W(c) == IF c = {"x"} THEN A!B("x") ELSE A!B("y")
Texts == [x \in {A!B(".po"), A!B(".pot"), A!B(".mo"), A!B(".go")} |-> [c \in {BAD, {"x"}, {"y"}} |->
    IF c = BAD THEN (CASE x = A!B(".mo") -> <<222, 18, 4, 149, 0>> [] x = A!B(".go") -> A!B("package (~") [] OTHER -> A!B("msgid \"x~"))
    ELSE CASE x = A!B(".mo") -> Mo(W(c), A!B("1")) [] x = A!B(".go") -> Go(W(c)) [] OTHER -> Po(W(c), A!B("1"))]]
Files(t) == SelectSeq(<<"p1", "p2", "p3">>, LAMBDA p : start[p] # ABSENT)
D == A!B("d")
InD(p) == IF dir THEN D \o A!B("/") \o p ELSE p
FileOf(t, p) == [p |-> InD(FileName(t, p)), d |-> IF start[p] = DIR THEN <<>> ELSE Texts[Kind(t, p)][start[p]], dir |-> start[p] = DIR]

NoOpt == [hasout |-> TRUE, out |-> <<>>, dir |-> <<>>, force |-> FALSE, from |-> <<>>, exclude |-> <<>>, excludefile |-> <<>>, outdir |-> <<>>,
          domain |-> A!B("messages"), update |-> FALSE, comp |-> <<>>, ignore |-> FALSE, bogus |-> FALSE, hasless |-> FALSE, less |-> 0,
          hasmore |-> FALSE, more |-> 0, unique |-> FALSE, first |-> FALSE, noloc |-> FALSE, hasaddloc |-> FALSE, addloc |-> "", sort |-> FALSE,
          sortfile |-> FALSE, join |-> FALSE, all |-> FALSE, haslang |-> FALSE, lang |-> <<>>, nofuzzy |-> FALSE, endian |-> "", nohash |-> FALSE,
          omit |-> FALSE, wrap |-> FALSE, pre |-> <<>>, suf |-> <<>>, verbose |-> FALSE, nplurals |-> 0]
\* With two outputs, one is the first input, which is updated in place.
Other == IF Len(run.outs) = 1 THEN run.outs[1] ELSE IF run.outs[1] = run.ins[1] THEN run.outs[2] ELSE run.outs[1]
Run(n) == [tool |-> tool, args |-> [i \in 1..Len(run.ins) |-> FileName(tool, run.ins[i])], stdin |-> <<>>, wrapper |-> n % 3 = 0, alias |-> n,
        sink |-> "", keep |-> FALSE, rel |-> "", base |-> 0,
        o |-> [NoOpt EXCEPT !.out = IF tool = "msgofmt" THEN FileName(tool, Other) ELSE InD(FileName(tool, Other)), !.dir = IF dir THEN D ELSE <<>>, !.force = ~run.excl, !.join = tool = "xgotext" /\ run.excl,
                            !.update = Len(run.outs) = 2, !.ignore = Len(run.ins) = 2 /\ run.excl, !.wrap = run.excl]]
Possible ==
    /\ Len(run.outs) = 2 => tool = "msgomerge" /\ run.ins[1] \in Outs /\ run.outs[1] = run.ins[1]
    /\ tool = "msgomerge" => Len(run.ins) = 2
    /\ tool \in {"msgocat", "msgomerge"} => ~run.excl
    /\ WIDE \/ run.ins \in {<<"p1">>, <<"p1", "p2">>, <<"p2", "p1">>, <<"p1", "p1">>}
    /\ WIDE \/ (run.ins = <<"p2", "p1">> => run.outs = <<"p1">>)
    \* What is at a place that the run does not name makes no difference.
    /\ \A p \in Paths : p \notin Outs \union {run.ins[i] : i \in 1..Len(run.ins)} => fs[p] = IF p = "p3" THEN ABSENT ELSE {"y"}

GInit == /\ Init /\ tool \in Tools /\ dir \in (IF tool \in {"msgofmt", "msgomerge", "xgotext"} THEN BOOLEAN ELSE {FALSE})
         /\ fs["p1"] \in {ABSENT, DIR, BAD, {"x"}} /\ (WIDE \/ fs["p3"] # {"x"}) /\ (WIDE \/ fs["p2"] # {"x"})
GNext == /\ pc = "idle" /\ Begin /\ UNCHANGED <<tool, dir>> /\ (Possible)'
Number == Len(run.ins) + 3 * Len(run.outs) + (IF run.excl THEN 1 ELSE 0) + Cardinality({p \in Paths : fs[p] \in Plain}) + 7 * Cardinality(Outs \union {run.ins[i] : i \in 1..Len(run.ins)})
Emit == pc = "read" => CSVWrite("%1$s", <<ToJson([fs |-> (IF dir THEN <<[p |-> D, d |-> <<>>, dir |-> TRUE]>> ELSE <<>>) \o [i \in 1..Len(Files(tool)) |-> FileOf(tool, Files(tool)[i])], runs |-> <<Run(Number), Run(Number + 1)>>])>>, IOEnv.CASES)
=============================================================================
