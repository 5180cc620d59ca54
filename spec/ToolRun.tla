------------------------------- MODULE ToolRun -------------------------------
(***************************************************************************)
(* How a command-line tool may go about a run so that it destroys nothing  *)
(* (C22): first every input is read and checked, then the result is made,  *)
(* then every output is tried, and only then written.  The inputs and the  *)
(* outputs of a run may be the same files, in any combination (output =    *)
(* input, update in place, join with the existing file), and what a file   *)
(* holds after one run is the input of the next.                           *)
(* Contents: ABSENT, DIR, BAD (malformed), or a set of words; the result   *)
(* of a run is the union of its inputs.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Paths,      \* names of files
          MAXIN,      \* inputs of a run
          MAXOUT,     \* outputs of a run
          RUNS        \* length of a history
VARIABLES fs,         \* path -> content
          start,      \* fs when the run began
          run,        \* [ins : Seq(path), outs : Seq(path), excl : BOOLEAN]
          pc,         \* "idle" | "read" | "probe" | "write" | "failed" | "done"
          k,          \* inputs read, or outputs probed or written
          result,     \* words collected so far
          runs        \* runs begun
vars == <<fs, start, run, pc, k, result, runs>>

ABSENT == {"absent"}
DIR == {"dir"}
BAD == {"bad"}
Plain == {ABSENT, DIR, BAD}
Words == {"x", "y"}
NoRun == [ins |-> <<>>, outs |-> <<>>, excl |-> FALSE]
Seqs(S, n) == UNION {[1..m -> S] : m \in 1..n}
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
Start == Plain \union {{w} : w \in Words}

TypeOK == /\ fs \in [Paths -> Plain \union SUBSET Words] /\ start \in [Paths -> Plain \union SUBSET Words]
          /\ pc \in {"idle", "read", "probe", "write", "failed", "done"}
Init == /\ fs \in [Paths -> Start] /\ start = fs /\ run = NoRun /\ pc = "idle" /\ k = 0 /\ result = {} /\ runs = 0

Begin == /\ pc \in {"idle", "failed", "done"} /\ runs < RUNS
         /\ \E i \in Seqs(Paths, MAXIN), o \in Seqs(Paths, MAXOUT), x \in BOOLEAN :
               Distinct(o) /\ run' = [ins |-> i, outs |-> o, excl |-> x]
         /\ start' = fs /\ pc' = "read" /\ k' = 0 /\ result' = {} /\ runs' = runs + 1 /\ UNCHANGED fs
\* The run may give up (bad options, a conflict between the inputs) at any point before it writes.
GiveUp == /\ pc \in {"read", "probe"} /\ pc' = "failed" /\ UNCHANGED <<fs, start, run, k, result, runs>>
Read == /\ pc = "read" /\ k < Len(run.ins)
        /\ LET c == fs[run.ins[k + 1]] IN
             IF c \in Plain THEN pc' = "failed" /\ UNCHANGED result
             ELSE pc' = "read" /\ result' = result \union c
        /\ k' = k + 1 /\ UNCHANGED <<fs, start, run, runs>>
ReadAll == /\ pc = "read" /\ k = Len(run.ins) /\ pc' = "probe" /\ k' = 0 /\ UNCHANGED <<fs, start, run, result, runs>>
Refused(c) == c = DIR \/ (run.excl /\ c # ABSENT)
Probe == /\ pc = "probe" /\ k < Len(run.outs)
         /\ pc' = IF Refused(fs[run.outs[k + 1]]) THEN "failed" ELSE "probe"
         /\ k' = k + 1 /\ UNCHANGED <<fs, start, run, result, runs>>
ProbeAll == /\ pc = "probe" /\ k = Len(run.outs) /\ pc' = "write" /\ k' = 0 /\ UNCHANGED <<fs, start, run, result, runs>>
Write == /\ pc = "write" /\ k < Len(run.outs)
         /\ fs' = [fs EXCEPT ![run.outs[k + 1]] = result] /\ k' = k + 1 /\ UNCHANGED <<start, run, pc, result, runs>>
Done == /\ pc = "write" /\ k = Len(run.outs) /\ pc' = "done" /\ UNCHANGED <<fs, start, run, k, result, runs>>
Next == Begin \/ GiveUp \/ Read \/ ReadAll \/ Probe \/ ProbeAll \/ Write \/ Done
Spec == Init /\ [][Next]_vars

Outs == {run.outs[i] : i \in 1..Len(run.outs)}
Meaning == UNION {start[run.ins[i]] : i \in 1..Len(run.ins)}
FailedChangesNothing == pc \in {"read", "probe", "failed"} => fs = start
DoneChangesOnlyOutputs == pc \in {"write", "done"} => \A p \in Paths \ Outs : fs[p] = start[p]
DoneWritesTheResult == pc = "done" => \A p \in Outs : fs[p] = Meaning
NothingReplacedUnasked == pc = "done" /\ run.excl => \A p \in Outs : start[p] = ABSENT
NoOutputLost == pc = "done" => \A i \in 1..Len(run.ins) : start[run.ins[i]] \notin Plain
=============================================================================
