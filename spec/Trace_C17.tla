------------------------------ MODULE Trace_C17 ------------------------------
(***************************************************************************)
(* C17: temporary options are temporary.  The recorded configurations must *)
(* be those of a behaviour of spec/Options.tla.                            *)
(* in.ops = <<[op, opts, in, n]>>; an option is [f, v, from], where f = "*"*)
(* stands for the configuration that was recorded after step from.         *)
(* out: init, steps = <<[cfg, res, fresh]>>                                *)
(***************************************************************************)
EXTENDS Options, TraceRun, SequencesExt

CfgAt(out, k) == IF k = 0 THEN out.init ELSE out.steps[k].cfg
Opt(x, out) == IF x.f = "*" THEN [f |-> "*", v |-> CfgAt(out, x.from)] ELSE [f |-> x.f, v |-> x.v]
OptsOf(xs, out) == [i \in 1..Len(xs) |-> Opt(xs[i], out)]
Step(s, o, out) ==
    CASE o.op = "apply" -> Apply(s, OptsOf(o.opts, out))
      [] o.op = "restore" -> Restore(s)
      [] o.op = "poke" -> Poke(s, Opt(o.opts[1], out))
      [] OTHER -> s
\* Runs through the steps; m = [s, bad].
Check(r) ==
    IF Len(r.out.steps) # Len(r.in.ops) THEN {"steps are missing"}
    ELSE LET go(m, i) ==
                LET o == r.in.ops[i] t == r.out.steps[i] n == Step(m.s, o, r.out) IN
                [s |-> n, bad |-> m.bad \union (IF t.cfg = n.cfg THEN {} ELSE {"the configuration after " \o o.op})
                                        \union (IF t.res = t.fresh THEN {} ELSE {"a temporary configuration behaves otherwise"})]
         IN FoldLeft(go, [s |-> [cfg |-> r.out.init, stack |-> <<>>], bad |-> {}], [i \in 1..Len(r.in.ops) |-> i]).bad
Accepted == Judge(Check)
=============================================================================
