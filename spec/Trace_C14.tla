------------------------------ MODULE Trace_C14 ------------------------------
(***************************************************************************)
(* C14: a guessed translation is always marked fuzzy.                      *)
(* out.sim[i][k] = [id, ctx, pl (similarities of the parts), avg (what the *)
(* library says)] for the messages sdef[i] and sref[k].                    *)
(***************************************************************************)
EXTENDS Merge, TraceRun

Mean(xs) == IF xs = <<>> THEN 0 ELSE FoldLeft(LAMBDA a, x : a + x, 0, xs) \div Len(xs)
SimOf(d, r, s) ==
    Mean((IF d.id # <<>> \/ r.id # <<>> THEN <<s.id>> ELSE <<>>)
         \o (IF d.ctx # <<>> \/ r.ctx # <<>> THEN <<s.ctx>> ELSE <<>>)
         \o (IF IsPlural(d) /\ IsPlural(r) THEN <<s.pl>> ELSE <<>>))
Check(r) ==
    LET def == r.out.sdef ref == r.out.sref out == r.out.out cfg == r.in.cfg
        At2(d, x) == r.out.sim[IndexKey(def, Key(d))][IndexKey(ref, Key(x))]
        Sim(d, x) == SimOf(d, x, At2(d, x))
    IN (IF Guesses(out, def, ref, cfg, Nplurals(HeaderFields(r.in.ref)), Sim) THEN {} ELSE {"a guess is unmarked, too far off or from nowhere"})
       \union (IF KeepsExact(out, def, ref) THEN {} ELSE {"an exact match is touched"})
       \union (IF \A i \in 1..Len(def) : \A k \in 1..Len(ref) : r.out.sim[i][k].avg = Sim(def[i], ref[k]) THEN {} ELSE {"the similarity is wrong"})
       \union (IF \A k \in 1..Len(ref) : LET b == r.out.best[k] IN
                 /\ \A i \in 1..Len(def) : Sim(def[i], ref[k]) <= b.r
                 /\ (b.r > 0 => Sim(def[b.i + 1], ref[k]) = b.r) THEN {} ELSE {"the best match is wrong"})
Accepted == Judge(Check)
=============================================================================
