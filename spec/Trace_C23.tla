------------------------------ MODULE Trace_C23 ------------------------------
(***************************************************************************)
(* C23: the tools' results compose.                                        *)
(* in: fs, runs = <<[tool, args, stdin, o, .., keep, rel, base]>>          *)
(* out: steps = <<[exit, crash, stdout, said, fs]>>                        *)
(* A run starts from fs, or from what the run before left (keep).  rel:    *)
(*   "result"  its result is checked against the files it reads            *)
(*   "chain"   like result; the files compiled by run base come out again  *)
(*   "same"    the same text as run base, elsewhere                        *)
(*   "write"   the same messages as run base, written with other options   *)
(*   "join"    the messages of run base joined with the existing file      *)
(*   "alike"   the same in all respects as run base (the wrapper)          *)
(***************************************************************************)
EXTENDS ToolResults, TraceRun

Before(r, i) == IF i = 1 \/ ~r.in.runs[i].keep THEN r.in.fs ELSE r.out.steps[i - 1].fs
Step(r, i) ==
    LET x == r.in.runs[i] s == r.out.steps[i]
        b == IF x.base = 0 THEN s ELSE r.out.steps[x.base]
        rb == IF x.base = 0 THEN x ELSE r.in.runs[x.base]
        must == MustFail(x, Before(r, i))
        text == TextOf(x, s.fs, s.stdout)
        base == TextOf(rb, b.fs, b.stdout)
    IN IF x.rel = "alike"
       THEN IF s.exit = b.exit /\ s.stdout = b.stdout /\ s.fs = b.fs THEN {} ELSE {"the wrapper does something else"}
       ELSE IF x.rel = "any" THEN {}
       ELSE IF s.exit # 0 THEN IF must THEN {} ELSE {"a run fails that should not"}
       ELSE IF must THEN {"a run that must fail does not"}
       ELSE CASE x.rel = "result" -> ResultErrors(x, Before(r, i), s.fs, text)
              [] x.rel = "chain" ->
                   LET es == Flat(Messages(Inputs(rb, Before(r, x.base)), rb, Before(r, x.base)))
                       ms == M!Sorted(M!MoMessages(es))
                   IN IF ReadOut(text).es = [k \in 1..Len(ms) |-> M!MoProjection(ms[k])] THEN {} ELSE {"other messages come out of the compiled file"}
              [] x.rel = "same" -> IF b.exit = 0 /\ text = base THEN {} ELSE {"the output depends on where it goes"}
              [] x.rel = "write" -> IF b.exit = 0 /\ ReadOut(text).es = O!Written(LET es == ReadOut(base).es IN [k \in 1..Len(es) |-> C!Unfilled(es[k])], Cfg(x.o)) THEN {} ELSE {"the writing options do something else"}
              [] x.rel = "join" ->
                   IF Joins(x, Before(r, i)) THEN JoinErrors(ReadOut(text).es, ReadIn(Data(Before(r, i), OutPath(x))), ReadOut(base).es)
                   ELSE IF text = base THEN {} ELSE {"joining with nothing"}
Check(r) == UNION {{n \o " (" \o r.in.runs[i].tool \o ")" : n \in Step(r, i)} : i \in 1..Len(r.out.steps)}
Accepted == Judge(Check)
=============================================================================
