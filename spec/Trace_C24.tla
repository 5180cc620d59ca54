------------------------------ MODULE Trace_C24 ------------------------------
(***************************************************************************)
(* C24: a failing destination is always reported.                          *)
(* in:  kind, fmt, ignore, trials = <<[mode, at, force]>>                  *)
(* out: full (what compiling gives), trials = <<[calls, got, err, st]>>    *)
(*   writer: calls = <<[n, m, bad]>>: n bytes offered, m taken, an error   *)
(*   file: st = "absent" | "dir" | "file" afterwards, got its content      *)
(*   tool: full is what the tool prints, err whether it exits with failure *)
(***************************************************************************)
EXTENDS Sequences, SequencesExt, TraceRun
\* The operators on what is seen need no constants.
S == INSTANCE Sink WITH Out <- <<>>, CAP <- 1, made <- 0, buf <- <<>>, got <- <<>>, failed <- FALSE, broken <- FALSE, ignore <- FALSE, says <- ""

Failed(calls) == \E i \in 1..Len(calls) : calls[i].bad
Odd(calls) == \E i \in 1..Len(calls) : ~calls[i].bad /\ calls[i].m < calls[i].n
Taken(calls) == FoldLeft(LAMBDA a, c : a + c.m, 0, calls)
WriterErrors(r, i) ==
    LET t == r.out.trials[i] IN
    S!Seen(r.out.full, t.got, Failed(t.calls), Odd(t.calls), r.in.ignore, t.err)
    \union (IF Taken(t.calls) = Len(t.got) THEN {} ELSE {"the record is wrong"})
OLD == <<111, 108, 100, 32, 99, 111, 110, 116, 101, 110, 116>>
FileErrors(r, i) ==
    LET c == r.in.trials[i] t == r.out.trials[i]
        refused == c.mode \in {"dir", "nodir"} \/ (c.mode \in {"old", "long", "full"} /\ ~c.force)
        cut == c.mode = "limit" /\ c.at < Len(r.out.full)
        before == CASE c.mode = "old" -> OLD [] c.mode = "long" -> OLD \o r.out.full [] OTHER -> <<>>
    IN IF refused
       THEN (IF t.err = ~r.in.ignore THEN {} ELSE {IF t.err THEN "an error although errors are ignored" ELSE "a destination that is not to be had is not reported"})
            \union (IF t.got = before THEN {} ELSE {"an existing file is changed"})
            \union (IF t.st = (CASE c.mode = "dir" -> "dir" [] c.mode = "nodir" -> "absent" [] OTHER -> "file") THEN {} ELSE {"something else is there afterwards"})
       ELSE IF c.mode = "full" THEN (IF (r.out.full # <<>> => t.err = ~r.in.ignore) THEN {} ELSE {"a full device and the error"})
       ELSE S!Seen(r.out.full, t.got, cut, FALSE, r.in.ignore, t.err)
ToolErrors(r, i) ==
    LET t == r.out.trials[i] IN
    \* Where there is nothing to print, writing nothing to a full device may still fail.
    IF t.err \/ r.out.full = <<>> THEN {} ELSE {"output that can't be printed is not reported (" \o r.in.tool \o ")"}
Errors(r, i) ==
    CASE r.in.kind = "writer" -> WriterErrors(r, i)
      [] r.in.kind = "file" -> FileErrors(r, i)
      [] r.in.kind = "tool" -> ToolErrors(r, i)
Check(r) == UNION {Errors(r, i) : i \in 1..Len(r.out.trials)}
Accepted == Judge(Check)
=============================================================================
