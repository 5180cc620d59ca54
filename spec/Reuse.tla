-------------------------------- MODULE Reuse --------------------------------
(***************************************************************************)
(* A parser or compiler that is used again.  What a run says depends on    *)
(* its input alone: Meaning[input] = [res, errs].  An instance keeps the   *)
(* errors of its last run; what runs have returned is never changed.       *)
(* Machines are [input, errs, out]: out is the sequence of answers given.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Inputs, Meaning(_), RUNS
VARIABLES m,        \* the specification
          impl      \* [input, errors (list), buffer (cells), out (references to cells)]
vars == <<m, impl>>

Answer(i) == Meaning(i)
Run(x) == [x EXCEPT !.errs = Answer(x.input).errs, !.out = Append(@, Answer(x.input))]
Give(x, i) == [x EXCEPT !.input = i]

\* The implementation collects errors while it runs, in a list that it empties first, and
\* puts its result in new memory.
ImplRun(x) ==
    LET errs == <<>> \o Meaning(x.input).errs
    IN [x EXCEPT !.errors = errs, !.memory = Append(@, [res |-> Meaning(x.input).res, errs |-> errs]), !.out = Append(@, Len(x.memory) + 1)]
ImplGive(x, i) == [x EXCEPT !.input = i]
Init == \E i \in Inputs : /\ m = [input |-> i, errs |-> <<>>, out |-> <<>>]
                          /\ impl = [input |-> i, errors |-> <<>>, memory |-> <<>>, out |-> <<>>]
Next == \/ Len(m.out) < RUNS /\ m' = Run(m) /\ impl' = ImplRun(impl)
        \/ \E i \in Inputs : m' = Give(m, i) /\ impl' = ImplGive(impl, i)
Spec == Init /\ [][Next]_vars
SameAnswers == /\ impl.errors = m.errs
               /\ [k \in 1..Len(impl.out) |-> impl.memory[impl.out[k]]] = m.out
AnswersKept == [][\A k \in 1..Len(m.out) : m'.out[k] = m.out[k] /\ impl'.memory[impl.out[k]] = impl.memory[impl.out[k]]]_vars
NoCarryOver == \A k \in 1..Len(m.out) : m.out[k] \in {Answer(i) : i \in Inputs}
=============================================================================
