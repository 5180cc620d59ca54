------------------------------- MODULE Gen_C23 -------------------------------
(***************************************************************************)
(* Pipelines: every sequence of runs in which each run reads what one      *)
(* before it wrote.                                                        *)
(***************************************************************************)
EXTENDS Catalog, Ascii, CSV, Json, IOUtils, TLC
CONSTANT LEN
VARIABLES world, todo
NoOpt == [hasout |-> TRUE, out |-> <<>>, dir |-> <<>>, force |-> TRUE, from |-> <<>>, exclude |-> <<>>, excludefile |-> <<>>, outdir |-> <<>>,
          domain |-> B("messages"), update |-> FALSE, comp |-> <<>>, ignore |-> FALSE, bogus |-> FALSE, hasless |-> FALSE, less |-> 0,
          hasmore |-> FALSE, more |-> 0, unique |-> FALSE, first |-> FALSE, noloc |-> FALSE, hasaddloc |-> FALSE, addloc |-> "", sort |-> FALSE,
          sortfile |-> FALSE, join |-> FALSE, all |-> FALSE, haslang |-> FALSE, lang |-> <<>>, nofuzzy |-> FALSE, endian |-> "", nohash |-> FALSE,
          omit |-> FALSE, wrap |-> TRUE, pre |-> <<>>, suf |-> <<>>, verbose |-> FALSE, nplurals |-> 0]
Run(tool, args, out) == [tool |-> tool, args |-> [i \in 1..Len(args) |-> B(args[i])], stdin |-> <<>>, wrapper |-> FALSE, alias |-> 1, sink |-> "",
                         keep |-> TRUE, rel |-> "result", base |-> 0, o |-> [NoOpt EXCEPT !.out = B(out), !.wrap = tool # "xgotext"]]
\* A step: what it reads, what it writes, its runs (the base of the last is the one before it).
Step(reads, writes, runs) == [reads |-> reads, writes |-> writes, runs |-> runs]
Steps == <<
    Step({}, {"x.pot"}, <<Run("xgotext", <<"a.go", "b.go">>, "x.pot")>>),
    Step({"x.pot"}, {"x.pot"}, <<Run("xgotext", <<"b.go">>, "-"), [Run("xgotext", <<"b.go">>, "x.pot") EXCEPT !.o.join = TRUE, !.rel = "join"]>>),
    Step({"x.pot", "def.po"}, {"def.po"}, <<[Run("msgomerge", <<"def.po", "x.pot">>, "-") EXCEPT !.o.update = TRUE]>>),
    Step({"x.pot", "def.po", "more.po"}, {"m.po"}, <<[Run("msgomerge", <<"def.po", "x.pot">>, "m.po") EXCEPT !.o.nofuzzy = TRUE, !.o.comp = <<B("more.po")>>]>>),
    Step({"x.pot", "m.po"}, {"m.po"}, <<Run("msgomerge", <<"m.po", "x.pot">>, "m.po")>>),
    Step({"m.po", "def.po", "more.po"}, {"c.po"}, <<Run("msgocat", <<"m.po", "def.po", "more.po">>, "c.po")>>),
    Step({"def.po", "x.pot", "more.po"}, {"c.po"}, <<[Run("msgocat", <<"def.po", "more.po", "x.pot">>, "c.po") EXCEPT !.o.first = TRUE, !.o.sort = TRUE]>>),
    Step({"c.po"}, {"c.po"}, <<[Run("msgocat", <<"c.po">>, "c.po") EXCEPT !.o.haslang = TRUE, !.o.lang = B("fr")]>>),
    Step({"def.po", "c.po"}, {"more.po"}, <<[Run("msgocat", <<"def.po", "c.po">>, "more.po") EXCEPT !.o.unique = TRUE]>>),
    Step({"def.po"}, {"k.mo"}, <<Run("msgofmt", <<"def.po">>, "k.mo")>>),
    Step({"c.po"}, {"k.mo"}, <<[Run("msgofmt", <<"c.po">>, "k.mo") EXCEPT !.o.endian = "big", !.o.nohash = TRUE]>>),
    Step({"m.po"}, {"k.mo"}, <<[Run("msgofmt", <<"m.po">>, "k.mo") EXCEPT !.wrapper = TRUE]>>),
    Step({"k.mo"}, {"def.po"}, <<Run("msgounfmt", <<"k.mo">>, "def.po")>>),
    Step({"k.mo"}, {"c.po"}, <<[Run("msgounfmt", <<"k.mo">>, "c.po") EXCEPT !.o.sort = TRUE]>>)>>
GoA == B("package p~~import \"github.com/leonelquinteros/gotext\"~~func f() {~gotext.Get(\"one\")~gotext.GetN(\"%d file\", \"%d files\", 3)~gotext.GetC(\"open\", \"menu\")~}~")
GoB == B("package p~~import g \"github.com/leonelquinteros/gotext\"~~var v, w = g.Get(\"two\"), g.Get(\"one\")~")
Header == B("msgid \"\"~msgstr \"\"~\"Language: de\\n\"~\"Content-Type: text/plain; charset=UTF-8\\n\"~\"Plural-Forms: nplurals=2; plural=(n != 1);\\n\"~~")
Def == Header \o B("# by hand~#: old.go:7~msgid \"one\"~msgstr \"eins\"~~#, fuzzy~msgid \"%d fil\"~msgid_plural \"%d fils\"~msgstr[0] \"a\"~msgstr[1] \"b\"~~msgid \"gone\"~msgstr \"weg\"~~#") \o <<126>> \o B(" msgid \"older\"~#") \o <<126>> \o B(" msgstr \"alt\"~")
More == B("#. from elsewhere~msgid \"two\"~msgstr \"zwei\"~~msgid \"one\"~msgstr \"uno\"~~msgctxt \"menu\"~msgid \"open\"~msgstr \"\"~")
F(p, d) == [p |-> B(p), d |-> d, dir |-> FALSE]
Old == Header \o B("msgid \"two\"~msgstr \"\"~~msgid \"zwo\"~msgstr \"\"~")
Worlds == <<<<F("a.go", GoA), F("b.go", GoB), F("def.po", Def), F("more.po", More)>>,
            <<F("a.go", GoA), F("b.go", GoB), F("def.po", B("# h~#. x~#, fuzzy, no-wrap~#: h:1~") \o Header \o B("msgid \"two\"~msgstr \"zwei\"~")), F("more.po", More), F("x.pot", Old)>>>>
Given(w) == {"def.po", "more.po"} \union (IF w = 2 THEN {"x.pot"} ELSE {})
Written == UNION {Steps[todo[i]].writes : i \in 1..Len(todo)}
Init == world \in 1..2 /\ todo = <<>>
Next == /\ Len(todo) < LEN
        /\ \E k \in 1..Len(Steps) :
             /\ Steps[k].reads \subseteq (Given(world) \union Written)
             /\ todo # <<>> => Steps[k].reads \intersect Steps[todo[Len(todo)]].writes # {}
             /\ todo' = Append(todo, k)
        /\ UNCHANGED world
Runs == LET RECURSIVE R(_)
            R(i) == IF i = 0 THEN <<>> ELSE LET before == R(i - 1) rs == Steps[todo[i]].runs IN
                    before \o [k \in 1..Len(rs) |-> [rs[k] EXCEPT !.keep = before # <<>> \/ k > 1, !.base = IF rs[k].rel = "join" THEN Len(before) + k - 1 ELSE 0]]
        IN R(Len(todo))
Emit == Len(todo) = LEN => CSVWrite("%1$s", <<ToJson([fs |-> Worlds[world], runs |-> Runs])>>, IOEnv.CASES)
=============================================================================
