-------------------------------- MODULE Conc --------------------------------
(***************************************************************************)
(* Operations that run at the same time (C25).  Every process runs a       *)
(* program, a sequence of operations; an operation is a sequence of        *)
(* accesses to cells: the shared catalogues and the package's tables,      *)
(* which are only read, and the process' own objects.  A table may be made *)
(* on first use, under a lock ("once").  The answer of an operation is     *)
(* what its reads add up to.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Procs, Shared, Programs, LOCKED   \* Programs: set of sequences of accesses
VARIABLES prog, pc, mem, acc, ready, lock, touched
vars == <<prog, pc, mem, acc, ready, lock, touched>>

\* An access: [k = "read" | "own" | "table", c = cell]
Table == "table"
Cells == Shared \union {Table} \union Procs
Value(c) == IF c \in Shared THEN 3 ELSE IF c = Table THEN 5 ELSE 0
Init == /\ prog \in [Procs -> Programs] /\ pc = [p \in Procs |-> 1]
        /\ mem = [c \in Cells |-> IF c = Table THEN 0 ELSE Value(c)]
        /\ acc = [p \in Procs |-> 0] /\ ready = FALSE /\ lock = {}
        /\ touched = {}
\* Who touches a cell, whether it writes, and whether it holds the lock or comes after it.
Touch(p, c, w, sync) == touched' = touched \union {[p |-> p, c |-> c, w |-> w, sync |-> sync]}
At(p) == prog[p][pc[p]]
Running(p) == pc[p] <= Len(prog[p])
Step(p) == pc' = [pc EXCEPT ![p] = @ + 1]
ReadShared(p) == /\ Running(p) /\ At(p).k = "read"
                 /\ acc' = [acc EXCEPT ![p] = @ + mem[At(p).c]]
                 /\ Touch(p, At(p).c, FALSE, FALSE) /\ Step(p)
                 /\ UNCHANGED <<prog, mem, ready, lock>>
WriteOwn(p) == /\ Running(p) /\ At(p).k = "own"
               /\ mem' = [mem EXCEPT ![p] = @ + 1]
               /\ acc' = [acc EXCEPT ![p] = @ + mem[p]]
               /\ Touch(p, p, TRUE, FALSE) /\ Step(p)
               /\ UNCHANGED <<prog, ready, lock>>
\* The first to use the table makes it.
Enter(p) == /\ Running(p) /\ At(p).k = "table" /\ ~ready /\ (LOCKED => lock = {}) /\ p \notin lock
            /\ lock' = lock \union {p} /\ UNCHANGED <<prog, pc, mem, acc, ready, touched>>
MakeTable(p) == /\ Running(p) /\ At(p).k = "table" /\ p \in lock
                /\ mem' = [mem EXCEPT ![Table] = Value(Table)] /\ ready' = TRUE
                /\ lock' = lock \ {p} /\ Touch(p, Table, TRUE, LOCKED)
                /\ UNCHANGED <<prog, pc, acc>>
ReadTable(p) == /\ Running(p) /\ At(p).k = "table" /\ ready /\ p \notin lock
                /\ acc' = [acc EXCEPT ![p] = @ + mem[Table]]
                /\ Touch(p, Table, FALSE, LOCKED) /\ Step(p)
                /\ UNCHANGED <<prog, mem, ready, lock>>
Next == \E p \in Procs : ReadShared(p) \/ WriteOwn(p) \/ Enter(p) \/ MakeTable(p) \/ ReadTable(p)

\* What a process gets when it runs alone.
RECURSIVE Upto(_, _)
Upto(f, n) == IF n = 0 THEN 0 ELSE f[n] + Upto(f, n - 1)
Alone(s) == Upto([i \in 1..Len(s) |-> IF s[i].k = "own" THEN Cardinality({j \in 1..(i - 1) : s[j].k = "own"})
                                      ELSE IF s[i].k = "table" THEN Value(Table) ELSE Value(s[i].c)], Len(s))
Sequential == \A p \in Procs : pc[p] > Len(prog[p]) => acc[p] = Alone(prog[p])
NoRace == ~\E a, b \in touched : a.p # b.p /\ a.c = b.c /\ (a.w \/ b.w) /\ ~(a.sync /\ b.sync)
SharedKept == \A c \in Shared : mem[c] = Value(c)
=============================================================================
