------------------------------ MODULE GoProgram ------------------------------
(***************************************************************************)
(* Go programs that use gotext, as a grammar: what they mean is known from *)
(* how they are built, whatever their layout.                              *)
(*   program  [imp, stmts]                                                 *)
(*   statement [k = "call", who, m, args] or [k = "lit", args = <<arg>>]   *)
(*   argument  [k = "lit", v], [k = "id"], [k = "num"], [k = "chr"],       *)
(*             [k = "sum", v] (text + text), [k = "call", v] (pkg.Get(v))  *)
(*   layout   [soft (between any tokens), hard (where a line may end),     *)
(*             q (how text is quoted), nl (line end)]                      *)
(***************************************************************************)
EXTENDS GoExtract

Roles == [Get |-> <<"id">>, GetN |-> <<"id", "pl", "n">>, GetD |-> <<"dom", "id">>, GetND |-> <<"dom", "id", "pl", "n">>,
          GetC |-> <<"id", "ctx">>, GetNC |-> <<"id", "pl", "n", "ctx">>, GetDC |-> <<"dom", "id", "ctx">>,
          GetNDC |-> <<"dom", "id", "pl", "n", "ctx">>]
Names == [Get |-> <<71, 101, 116>>, GetN |-> <<71, 101, 116, 78>>, GetD |-> <<71, 101, 116, 68>>, GetND |-> <<71, 101, 116, 78, 68>>,
          GetC |-> <<71, 101, 116, 67>>, GetNC |-> <<71, 101, 116, 78, 67>>, GetDC |-> <<71, 101, 116, 68, 67>>, GetNDC |-> <<71, 101, 116, 78, 68, 67>>,
          Getter |-> <<71, 101, 116, 116, 101, 114>>, get |-> <<103, 101, 116>>]
FuncHead == <<102, 117, 110, 99, 32, 102, 40, 41>>
PackageP == <<112, 97, 99, 107, 97, 103, 101, 32, 112>>
ALIAS == <<103>>
OTHER_PATH == <<120, 47, 103, 111, 116, 101, 120, 116>>
Imports == {"none", "plain", "alias", "raw", "group", "second", "other"}
\* The name gotext has; empty without the import.
NameIn(imp) == CASE imp \in {"plain", "raw", "group"} -> GOTEXT [] imp \in {"alias", "second"} -> ALIAS [] OTHER -> <<>>
\* The name that calls are written with.
CallName(imp) == IF NameIn(imp) = <<>> THEN GOTEXT ELSE NameIn(imp)

HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Quote(v, q) ==
    CASE q = "raw" /\ 96 \notin Rng(v) /\ 13 \notin Rng(v) -> <<96>> \o v \o <<96>>
      [] q = "hex" -> <<34>> \o Flat([i \in 1..Len(v) |-> <<92, 120, HexDigit(v[i] \div 16), HexDigit(v[i] % 16)>>]) \o <<34>>
      [] OTHER -> <<34>> \o Flat([i \in 1..Len(v) |->
            CASE v[i] = 10 -> <<92, 110>> [] v[i] = 13 -> <<92, 114>> [] v[i] \in {34, 92} -> <<92, v[i]>> [] OTHER -> <<v[i]>>]) \o <<34>>

\* Pieces of source: [t = bytes, lit = identity of the literal or <<>>].
Raw(t) == <<[t |-> t, lit |-> <<>>]>>
\* Lines of raw strings end as the lines of the file do; that is not part of the text.
Quoted(v, y) ==
    LET q == Quote(v, y.q) IN
    IF q[1] = 96 /\ y.nl = <<13, 10>> THEN Flat([i \in 1..Len(q) |-> IF q[i] = 10 THEN y.nl ELSE <<q[i]>>]) ELSE q
Lit(v, y, who) == <<[t |-> Quoted(v, y), lit |-> who]>>
Sel(name, m, y) == Raw(name) \o Raw(y.soft \o <<46>>) \o Raw(y.hard \o m \o y.soft)
ArgPieces(a, who, imp, y) ==
    CASE a.k = "lit" -> Lit(a.v, y, who)
      [] a.k = "id" -> Raw(<<120>>)
      [] a.k = "num" -> Raw(<<49, 101, 43, 50>>)
      [] a.k = "chr" -> Raw(<<39, 34, 39>>)
      [] a.k = "sum" -> Lit(a.v, y, who) \o Raw(y.soft \o <<43>> \o y.hard) \o Lit(a.v, y, Append(who, 2))
      [] a.k = "call" -> Sel(CallName(imp), Names.Get, y) \o Raw(<<40>> \o y.hard) \o Lit(a.v, y, Append(who, 1)) \o Raw(<<41>>)
      [] a.k = "list" -> Raw(<<91, 93, 115, 123>>) \o Lit(a.v, y, who) \o Raw(<<44>>) \o Lit(a.v, y, Append(who, 2)) \o Raw(<<125>>)
Args(s, n, imp, y) ==
    Flat([i \in 1..Len(s.args) |-> (IF i = 1 THEN <<>> ELSE Raw(y.soft \o <<44>> \o y.hard)) \o ArgPieces(s.args[i], <<n, i>>, imp, y)])
StmtPieces(s, n, imp, y) ==
    IF s.k = "lit" THEN Raw(<<95, 32, 61, 32>>) \o Args(s, n, imp, y) \o Raw(y.nl)
    ELSE (CASE s.who = "pkg" -> Sel(CallName(imp), Names[s.m], y)
            [] s.who = "field" -> Raw(<<120, 46>>) \o Sel(CallName(imp), Names[s.m], y)
            [] OTHER -> Sel(<<111>>, Names[s.m], y))
         \o Raw(<<40>> \o y.hard) \o Args(s, n, imp, y) \o Raw((IF y.hard # <<>> /\ s.args # <<>> THEN <<44>> \o y.hard ELSE <<>>) \o <<41>> \o y.nl)
ImportPieces(imp, y) ==
    LET kw == KwImport \o <<32>>
        one(pre, q, path) == Raw(kw \o pre \o Quote(path, q) \o y.nl)
    IN CASE imp = "none" -> <<>>
         [] imp = "plain" -> one(<<>>, "dq", WANTED)
         [] imp = "raw" -> one(<<>>, "raw", WANTED)
         [] imp = "alias" -> one(ALIAS \o <<32>>, "dq", WANTED)
         [] imp = "other" -> one(<<>>, "dq", OTHER_PATH)
         [] imp = "group" -> Raw(kw \o <<40, 10>> \o <<120, 32>> \o Quote(OTHER_PATH, "dq") \o y.nl \o Quote(WANTED, "dq") \o y.nl \o <<41>> \o y.nl)
         [] imp = "second" -> Raw(kw \o <<40, 41>> \o y.nl) \o one(<<>>, "raw", OTHER_PATH) \o one(ALIAS \o <<32>>, "raw", WANTED)
PiecesOf(p, y) ==
    Raw(PackageP \o y.nl) \o ImportPieces(p.imp, y) \o Raw(FuncHead \o <<123>> \o y.nl)
    \o Flat([n \in 1..Len(p.stmts) |-> StmtPieces(p.stmts[n], n, p.imp, y)]) \o Raw(<<125>> \o y.nl)
Source(p, y) == LET ps == PiecesOf(p, y) IN Flat([i \in 1..Len(ps) |-> ps[i].t])
\* The line on which the literal begins.
LineIn(p, y, who) ==
    LET ps == PiecesOf(p, y)
        k == CHOOSE i \in 1..Len(ps) : ps[i].lit = who
        before == Flat([i \in 1..(k - 1) |-> ps[i].t])
    IN 1 + Len(SelectSeq(before, LAMBDA c : c = 10))

(******************************** meaning **********************************)
RoleAt(m, r) == SelectInSeq(Roles[m], LAMBDA x : x = r)
IsCall(s) == s.k = "call" /\ s.who = "pkg" /\ s.m \in DOMAIN Roles
BadArg(s, r) == LET i == RoleAt(s.m, r) IN i # 0 /\ (i > Len(s.args) \/ (i <= Len(s.args) /\ s.args[i].k \in {"num", "chr"}))
BadCall(s) == IsCall(s) /\ (BadArg(s, "id") \/ BadArg(s, "pl") \/ BadArg(s, "ctx"))
TextAt(s, r) == LET i == RoleAt(s.m, r) IN IF i = 0 THEN <<>> ELSE IF s.args[i].k = "lit" THEN s.args[i].v ELSE <<>>
GoodCall(s) == IsCall(s) /\ ~BadCall(s) /\ TextAt(s, "id") # <<>>
Msg(p, y, name, id, pl, ctx, who) ==
    [NoEntry EXCEPT !.id = id, !.pl = pl, !.ctx = ctx, !.locs = <<[f |-> name, l |-> LineIn(p, y, who)]>>]
\* The messages of statement n: the call itself, then those in its arguments.
Role(s, i) == IF IsCall(s) /\ i <= Len(Roles[s.m]) THEN Roles[s.m][i] ELSE "n"
StmtMsgs(p, y, name, n, on, all) ==
    LET s == p.stmts[n]
        call == IF on /\ GoodCall(s)
                THEN <<Msg(p, y, name, TextAt(s, "id"), TextAt(s, "pl"), TextAt(s, "ctx"), <<n, RoleAt(s.m, "id")>>)>> ELSE <<>>
        arg(i) == LET a == s.args[i] one(who) == <<Msg(p, y, name, a.v, <<>>, <<>>, who)>> IN
            IF a.k \in {"id", "num", "chr"} \/ a.v = <<>> THEN <<>>
            ELSE IF a.k = "call" THEN IF on \/ all THEN one(<<n, i, 1>>) ELSE <<>>
            ELSE IF ~all THEN <<>>
            ELSE IF a.k \in {"sum", "list"} THEN one(<<n, i>>) \o one(<<n, i, 2>>)
            ELSE IF on /\ GoodCall(s) /\ Role(s, i) \in {"id", "pl", "ctx"} THEN <<>> ELSE one(<<n, i>>)
    IN call \o Flat([i \in 1..Len(s.args) |-> arg(i)])
Meaning(p, y, name, all) ==
    LET on == NameIn(p.imp) # <<>> IN Flat([n \in 1..Len(p.stmts) |-> StmtMsgs(p, y, name, n, on, all)])
IsBad(p) == NameIn(p.imp) # <<>> /\ \E n \in 1..Len(p.stmts) : BadCall(p.stmts[n])
=============================================================================
