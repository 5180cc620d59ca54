------------------------------ MODULE Trace_C08 ------------------------------
(***************************************************************************)
(* C08: duplicates are reported exactly and resolved without loss.         *)
(* in: es, list (priority keys), prior (priority messages), forms          *)
(* out: has, dups, vdups, vbad, odd, solve, solve2, clean, clean2,         *)
(* ifprior, obsolete, fallback, base, forms                                *)
(***************************************************************************)
EXTENDS CatOps, TraceRun

Shape(es, out) == [i \in 1..Len(out) |-> Key(out[i])] = FirstKeys(es)
Each(es, out, P(_, _)) == \A i \in 1..Len(out) : P(out[i], Group(es, Key(out[i])))
FirstForms(fs) == FoldLeft(LAMBDA acc, f : IF \E k \in 1..Len(acc) : acc[k] = f THEN acc ELSE Append(acc, f), <<>>, fs)

Check(r) ==
    LET es == r.in.es
        listed(k) == \E i \in 1..Len(r.in.list) : r.in.list[i] = k
        prior(k) == IndexKey(r.in.prior, k)
        bad == InvalidReport(es)
        Res(m, g) == Resolved(m, g)
        Ifp(m, g) == IF listed(Key(m)) THEN Resolved(m, g) ELSE m = g[1]
        Obs(m, g) == IF Len(g) = 1 \/ listed(Key(m)) THEN Resolved(m, g)
                     ELSE m.obs /\ \E o \in BOOLEAN : Resolved([m EXCEPT !.obs = o], g)
        Fal(m, g) == IF Len(g) > 1 /\ prior(Key(m)) # 0 THEN m = r.in.prior[prior(Key(m))] ELSE Resolved(m, g)
        Bas(m, g) == IF Len(g) > 1 /\ prior(Key(m)) # 0
                     THEN m.id = g[1].id /\ m.ctx = g[1].ctx /\ LET h == <<r.in.prior[prior(Key(m))]>> \o g IN
                               (\E i \in 1..Len(h) : m.obs = h[i].obs) /\ FromGroup([m EXCEPT !.obs = \A i \in 1..Len(h) : h[i].obs], h)
                     ELSE Resolved(m, g)
    IN (IF r.out.has = ~Distinct(es) THEN {} ELSE {"the duplicate query is wrong"})
       \union (IF r.out.dups = DuplicateReport(es) /\ r.out.vdups = DuplicateReport(es) THEN {} ELSE {"the report of duplicates is wrong"})
       \union (IF r.out.vbad = [n \in 1..Len(bad) |-> bad[n] - 1] /\ r.out.odd = 0 THEN {} ELSE {"the report of invalid messages is wrong"})
       \union (IF Shape(es, r.out.solve) /\ Each(es, r.out.solve, Res) THEN {} ELSE {"resolving loses something"})
       \union (IF r.out.solve2 = r.out.solve THEN {} ELSE {"resolving again changes something"})
       \union (IF r.out.clean = CleanDuplicates(es) THEN {} ELSE {"cleaning does not keep the first message with all references"})
       \union (IF r.out.clean2 = r.out.clean THEN {} ELSE {"cleaning again changes something"})
       \union (IF Shape(es, r.out.ifprior) /\ Each(es, r.out.ifprior, Ifp) THEN {} ELSE {"resolving only listed messages"})
       \union (IF Shape(es, r.out.obsolete) /\ Each(es, r.out.obsolete, Obs) THEN {} ELSE {"resolving and marking unlisted messages"})
       \union (IF Shape(es, r.out.fallback) /\ Each(es, r.out.fallback, Fal) THEN {} ELSE {"resolving with preferred messages"})
       \union (IF Shape(es, r.out.base) /\ Each(es, r.out.base, Bas) THEN {} ELSE {"resolving on the base of preferred messages"})
       \union (IF r.out.forms = FirstForms(r.in.forms) THEN {} ELSE {"duplicate plural forms"})
Accepted == Judge(Check)
=============================================================================
