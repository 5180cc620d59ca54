------------------------------ MODULE Trace_C12 ------------------------------
(***************************************************************************)
(* C12: header fields survive reading, editing and writing.                *)
(* in: kind, str, fuzzy, fs, ops, cfg                                      *)
(* out: fs, template, np, steps [v, fs], backfs, backt, backk, cfg, errs   *)
(***************************************************************************)
EXTENDS Header, TraceRun

Cat(vs) == Flat(vs)
StepOk(fs, o, s) ==
    LET next == CASE o.op = "load" -> fs [] o.op = "set" -> HSet(fs, o.k, o.v[1]) [] o.op = "register" -> HRegister(fs, o.k, Cat(o.v)) IN
    (IF s.fs = next THEN {} ELSE {"the fields after " \o o.op})
    \union (IF o.op # "load" \/ s.v = HLoad(fs, o.k) THEN {} ELSE {"the loaded value"})

\* The settings that a header holds: the creation date only in templates, the plural rule only otherwise.
Kept(c) == [c EXCEPT !.vals = [i \in 1..Len(@) |-> IF (i = 3 /\ ~c.template) \/ (i = 10 /\ c.template) THEN <<>> ELSE @[i]],
                     !.nplurals = IF c.template THEN 2 ELSE @]
SettingsRead(c) == [vals |-> SubSeq(c.vals, 1, Len(Settings)), plural |-> c.vals[10], nplurals |-> c.nplurals, extra |-> c.extra]
Check(r) ==
    LET fs0 == IF r.in.kind = "text" THEN HFields(r.in.str) ELSE IF r.in.kind = "fields" THEN r.in.fs ELSE r.out.fs
        last == IF r.out.steps = <<>> THEN r.out.fs ELSE r.out.steps[Len(r.out.steps)].fs
    IN (IF r.out.fs = fs0 THEN {} ELSE {"the fields read"})
       \union (IF r.out.template = (IF r.in.kind = "config" THEN r.in.cfg.template ELSE r.in.fuzzy) THEN {} ELSE {"the template mark"})
       \union (IF r.out.np = Nplurals(r.out.fs) THEN {} ELSE {"the number of plural forms"})
       \union UNION {StepOk(IF i = 1 THEN r.out.fs ELSE r.out.steps[i - 1].fs, r.in.ops[i], r.out.steps[i]) : i \in 1..Len(r.in.ops)}
       \union (IF Len(r.out.steps) = Len(r.in.ops) THEN {} ELSE {"steps are missing"})
       \union (IF r.out.backt = r.out.template /\ r.out.backk THEN {} ELSE {"the template mark after writing"})
       \union (IF r.out.backfs = last THEN {} ELSE {"the fields after writing"})
       \union (IF r.out.cfg.template = r.out.template /\ SettingsRead(r.out.cfg) = SettingsOf(r.out.fs) THEN {} ELSE {"the settings of the header"})
       \union (IF r.in.kind = "config" /\ (r.out.errs # 0 \/ Kept(r.out.cfg) # Kept(r.in.cfg)) THEN {"the configuration read back"} ELSE {})
Accepted == Judge(Check)
=============================================================================
