------------------------------ MODULE Trace_C22 ------------------------------
(***************************************************************************)
(* C22: the tools change only the file they are told to write, and only    *)
(* when they succeed.                                                      *)
(* in: fs, runs = <<[tool, args, stdin, o, sink, ..]>>                     *)
(* out: steps = <<[exit, crash, stdout, said, fs]>>                        *)
(***************************************************************************)
EXTENDS Tools, TraceRun

Before(r, i) == IF i = 1 THEN r.in.fs ELSE r.out.steps[i - 1].fs
Step(r, i) ==
    LET x == r.in.runs[i] s == r.out.steps[i]
    IN {n \o " (" \o x.tool \o ")" : n \in
         (IF s.crash THEN {"a crash"} ELSE {})
         \union RunErrors(x, Before(r, i), s.fs, s.exit)
         \union (IF s.exit # 0 /\ ~s.said THEN {"a failure without a message"} ELSE {})}
Check(r) == UNION {Step(r, i) : i \in 1..Len(r.out.steps)}
Accepted == Judge(Check)
=============================================================================
