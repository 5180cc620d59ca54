------------------------------ MODULE Trace_C11 ------------------------------
(***************************************************************************)
(* C11: equality sees every field.  Each answer is <<a=b, b=a, a=a, b=b>>. *)
(***************************************************************************)
EXTENDS CatOps, TraceRun

Say(got, eq, what) == IF got = <<eq, eq, TRUE, TRUE>> THEN {} ELSE {what}
Check(r) ==
    LET a == r.in.a b == r.in.b
        ea == IF a = <<>> THEN NoEntry ELSE a[1]
        eb == IF b = <<>> THEN NoEntry ELSE b[1]
        both(x, y, P(_, _)) == IF x = <<>> \/ y = <<>> THEN TRUE ELSE P(x[1], y[1])
    IN Say(r.out.files, a = b /\ r.in.na = r.in.nb, "equality of files")
       \union Say(r.out.es, a = b, "equality of catalogues")
       \union Say(r.out.locs, ea.locs = eb.locs, "equality of reference lists")
       \union Say(r.out.forms, ea.forms = eb.forms, "equality of plural lists")
       \union Say(r.out.loc1, both(ea.locs, eb.locs, LAMBDA x, y : x = y), "equality of references")
       \union Say(r.out.form1, both(ea.forms, eb.forms, LAMBDA x, y : x = y), "equality of plural forms")
       \union (IF r.out.entry = [i \in 1..Len(a) |-> [k \in 1..Len(b) |-> SameMessage(a[i], b[k])]]
               /\ r.out.entry2 = [k \in 1..Len(b) |-> [i \in 1..Len(a) |-> SameMessage(a[i], b[k])]] THEN {} ELSE {"equality of messages"})
Accepted == Judge(Check)
=============================================================================
