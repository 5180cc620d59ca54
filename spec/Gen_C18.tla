------------------------------- MODULE Gen_C18 -------------------------------
(***************************************************************************)
(* All short histories of runs and of changes to answers (spec/Reuse.tla)  *)
(* over three inputs, one with errors, for every kind of parser and        *)
(* compiler.                                                               *)
(***************************************************************************)
EXTENDS Ascii, CSV, Json, IOUtils, TLC
CONSTANTS LEN,      \* steps
          MODES     \* ways to run
VARIABLES kind, h, runs
L == INSTANCE MoLayout
Good == L!Make(<<L!Hdr0, L!Two, L!Within>>, L!Usual)
Obs == <<35, 126>>
PoTexts == <<B("# c~#. x~#: a.go:1~#, fuzzy~#| p~msgctxt \"k\"~msgid \"a\"~msgid_plural \"as\"~msgstr[0] \"b\"~msgstr[1] \"c\"~"),
             B("#: a.go:99999999999999999999~msgid \"z\"~msgstr \"w\"~~msgid~"),
             B("msgid \"\"~msgstr \"A: b\\n\"~~msgid \"a\"~msgstr \"x\"~~msgid \"a\"~msgstr \"y\"~~#: o.go:1 p.go:2~") \o Obs \o B(" msgid \"o\"~") \o Obs \o B(" msgstr \"p\"~")>>
MoFiles == <<Good, SubSeq(Good, 1, Len(Good) - 3), L!Make(<<L!Simple>>, [L!Usual EXCEPT !.be = TRUE])>>
Source(body) == B("package p~import g \"github.com/leonelquinteros/gotext\"~func f() { ") \o body \o B(" }~")
GoTexts == <<Source(B("g.Get(\"a\"); g.GetNC(\"n\", \"ns\", 2, \"c\"); g.Get(\"a\")")), Source(B("g.Get(); g.GetC(\"x\"); g.Get(\"z\")")),
             B("package p~import h \"github.com/leonelquinteros/gotext\"~func f() { h.Get(\"b\"); g.Get(\"no\") }~")>>
GoBroken == <<GoTexts[1], B("package p~func broken( {~"), GoTexts[3]>>
Cats == <<<<L!Hdr0, L!Two, L!Within>>, <<>>, <<L!Simple, [L!Simple EXCEPT !.str = B("other")], [L!Longer EXCEPT !.obs = TRUE]>>>>
Texts == [parsepo |-> PoTexts, parsemo |-> MoFiles, go |-> GoTexts, gofile |-> GoBroken, po |-> <<>>, mo |-> <<>>]
Kinds == {"parsepo", "parsemo", "go", "gofile", "po", "mo"}
Init == kind \in Kinds /\ h = <<>> /\ runs = 0
RunIt(i, n) == h' = Append(h, [op |-> "run", i |-> i, k |-> 0, n |-> n]) /\ runs' = runs + 1 /\ UNCHANGED kind
Spoil(k) == h' = Append(h, [op |-> "spoil", i |-> 0, k |-> k, n |-> 0]) /\ UNCHANGED <<kind, runs>>
Next == Len(h) < LEN /\ ((\E i \in 0..2, n \in MODES : RunIt(i, n)) \/ (\E k \in 0..(runs - 1) : Spoil(k)))
\* A history ends with a run.
Emit == Len(h) = LEN /\ h[LEN].op = "run" =>
    CSVWrite("%1$s", <<ToJson([kind |-> kind, inputs |-> Texts[kind], cats |-> IF kind \in {"po", "mo"} THEN Cats ELSE <<>>, ops |-> h])>>, IOEnv.CASES)
=============================================================================
