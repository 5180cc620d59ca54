------------------------------ MODULE Trace_C10 ------------------------------
(***************************************************************************)
(* C10: sorting gives a permutation in the order of its key.  Every        *)
(* element of out.es, out.locs, out.forms is [o (name of the order), cmp   *)
(* (signs for every pair), sorted, before, after (is-sorted queries)].     *)
(***************************************************************************)
EXTENDS Order, TraceRun

Judge1(a, xs, C(_, _), signs) ==
    (IF signs => a.cmp = [i \in 1..Len(xs) |-> [j \in 1..Len(xs) |-> C(xs[i], xs[j])]] THEN {} ELSE {"comparison by " \o a.o})
    \union (IF SameBag(a.sorted, xs) THEN {} ELSE {"sorting by " \o a.o \o " loses something"})
    \union (IF Ascending(a.sorted, C) /\ a.after THEN {} ELSE {"not sorted by " \o a.o})
    \union (IF signs => a.before = Ascending(xs, C) THEN {} ELSE {"is-sorted query by " \o a.o})
Half(s) == SubSeq(s, 1, Len(s) \div 2)
Rest(s) == SubSeq(s, Len(s) \div 2 + 1, Len(s))
Check(r) ==
    LET E1(a, signs) == Judge1(a, r.in.es, LAMBDA x, y : CmpEntry(a.o, x, y), signs)
        L1(a) == Judge1(a, r.in.locs, LAMBDA x, y : CmpLocBy(a.o, x, y), TRUE)
        F1(a) == Judge1(a, r.in.forms, LAMBDA x, y : CmpFormBy(a.o, x, y), TRUE)
    IN UNION {E1(r.out.es[i], TRUE) : i \in 1..Len(r.out.es)}
       \union UNION {E1(r.out.modes[i], FALSE) : i \in 1..Len(r.out.modes)}
       \union UNION {L1(r.out.locs[i]) : i \in 1..Len(r.out.locs)}
       \union UNION {F1(r.out.forms[i]) : i \in 1..Len(r.out.forms)}
       \union (IF r.out.lists = <<CmpList(Half(r.in.es), Rest(r.in.es), ByAll), CmpList(Half(r.in.locs), Rest(r.in.locs), CmpLoc),
                                  CmpList(Half(r.in.forms), Rest(r.in.forms), CmpForm)>> THEN {} ELSE {"comparison of lists"})
Accepted == Judge(Check)
=============================================================================
