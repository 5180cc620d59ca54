------------------------------- MODULE Gen_C26 -------------------------------
(***************************************************************************)
(* One task for each list of paths and exclusions on a tree that has every *)
(* kind of thing; "@" starts a path at the root of the tree.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Args, Excl, LEN, XLEN
VARIABLES args, excl
Init == args = <<>> /\ excl = <<>>
Next == \/ /\ Len(args) < LEN /\ excl = <<>> /\ \E a \in Args : args' = Append(args, a) /\ UNCHANGED excl
        \/ /\ args # <<>> /\ Len(excl) < XLEN /\ \E e \in Excl : excl' = Append(excl, e) /\ UNCHANGED args
Case == [tree |-> "every", args |-> args, excl |-> excl]
Emitted == args = <<>> \/ CSVWrite("%1$s", <<ToJson(Case)>>, IOEnv.CASES)
const_Args == {".", "./", "x.go", "./x.go", "@/w/x.go", "a", "a/", "a//b", "a/b/..", "a/x.go", "..", "../w/ab", "d.go", "d.go/", "t.txt", "no", "no/../x.go", "x.go/", "x.go/../a", "@/y.go",
               "a/bad/x.go", "e", ".git", "@", "a/b/../../x.go"}
const_Excl == {"", ".", "a", "a/", "./a/b", "@/w/a", "x.go", "../y.go", "a/bad", "no/../d.go", "ab", "a/x.go", "a/b/x", "..", "x", "b", "*.go"}
=============================================================================
