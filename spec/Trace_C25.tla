------------------------------ MODULE Trace_C25 ------------------------------
(***************************************************************************)
(* C25: operations at the same time.                                       *)
(* out: alone[p][k]        the answer of operation k of program p, alone   *)
(*      together[r][p][k]  the answer in round r, when all run             *)
(*      before, after      the shared inputs                               *)
(*      races              data races that were seen                       *)
(* These are Conc's Sequential, SharedKept and NoRace.                     *)
(***************************************************************************)
EXTENDS TraceRun
Same(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : a[k] = b[k]
Wrong(r) == {<<p, k>> \in {<<p, k>> \in (1..Len(r.in.progs)) \X (1..8) : k <= Len(r.in.progs[p])} :
               \E q \in 1..Len(r.out.together) : r.out.together[q][p][k] # r.out.alone[p][k]}
Shaped(r) == /\ Len(r.out.alone) = Len(r.in.progs) /\ Len(r.out.together) = r.in.rounds
             /\ \A p \in 1..Len(r.in.progs) : /\ Len(r.out.alone[p]) = Len(r.in.progs[p])
                                              /\ \A q \in 1..r.in.rounds : Len(r.out.together[q][p]) = Len(r.in.progs[p])
Check(r) == IF ~Shaped(r) THEN {"the record is incomplete"}
            ELSE {"another answer than alone: " \o r.in.progs[x[1]][x[2]].op : x \in Wrong(r)}
                 \union (IF Same(r.out.before, r.out.after) THEN {} ELSE {"shared inputs are changed"})
                 \union {r.out.races[i] : i \in 1..Len(r.out.races)}
Accepted == Judge(Check)
=============================================================================
