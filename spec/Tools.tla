-------------------------------- MODULE Tools --------------------------------
(***************************************************************************)
(* The command-line tools as programs over a file system.                  *)
(* A file system is a sequence of [p : path, d : bytes, dir : BOOLEAN].    *)
(* A run r = [tool, args, stdin, o] reads Inputs(r, fs), may write Outs(r, *)
(* fs), must fail if MustFail(r, fs), and Allowed says what may be left    *)
(* behind.  "-" stands for the standard streams.                           *)
(***************************************************************************)
EXTENDS Text
P == INSTANCE PoText
M == INSTANCE MoFormat
G == INSTANCE GoExtract
C == INSTANCE CatOps

DASH == <<45>>
SLASH == 47
EXT_PO == <<46, 112, 111>>
EXT_MO == <<46, 109, 111>>
EXT_GO == <<46, 103, 111>>
EXT_POT == <<46, 112, 111, 116>>
MESSAGES_MO == <<109, 101, 115, 115, 97, 103, 101, 115, 46, 109, 111>>
EndsWith(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
HasExt(p, e) == EndsWith(p, e)
JoinPath(d, p) == CleanPath(IF d = <<>> THEN p ELSE IF p = <<>> THEN d ELSE d \o <<SLASH>> \o p)
Parent(p) == LET k == SelectLastInSeq(p, LAMBDA c : c = SLASH) IN IF k = 0 THEN <<46>> ELSE IF k = 1 THEN <<SLASH>> ELSE SubSeq(p, 1, k - 1)
Under(p, d) == d = <<46>> \/ p = d \/ StartsWith(p, d \o <<SLASH>>)

IndexPath(fs, p) == LET q == CleanPath(p) IN SelectInSeq(fs, LAMBDA f : f.p = q)
IsFile(fs, p) == LET i == IndexPath(fs, p) IN i # 0 /\ ~fs[i].dir
IsDir(fs, p) == CleanPath(p) = <<46>> \/ LET i == IndexPath(fs, p) IN i # 0 /\ fs[i].dir
Data(fs, p) == LET i == IndexPath(fs, p) IN IF i = 0 THEN <<>> ELSE fs[i].d
PathsOf(fs) == {fs[i].p : i \in 1..Len(fs)}
FilesIn(fs, d) == SelectSeq([i \in 1..Len(fs) |-> fs[i].p], LAMBDA p : Parent(p) = CleanPath(d) /\ IsFile(fs, p))
FilesBelow(fs, d) == SelectSeq([i \in 1..Len(fs) |-> fs[i].p], LAMBDA p : Under(p, CleanPath(d)) /\ IsFile(fs, p))
Lines(text) == SelectSeq([i \in 1..Len(Split(text, 10)) |-> Trim(Split(text, 10)[i], WS \union {11})], LAMBDA l : l # <<>>)

(********************************* inputs **********************************)
In(p, k) == [p |-> p, k |-> k]
Listed(r, fs) == IF r.o.from = <<>> \/ (r.o.from # DASH /\ ~IsFile(fs, r.o.from)) THEN <<>>
                 ELSE Lines(IF r.o.from = DASH THEN r.stdin ELSE Data(fs, r.o.from))
InDir(r, p) == IF r.o.dir = <<>> \/ p = DASH THEN p ELSE JoinPath(r.o.dir, p)
WholeDir(r) == r.tool = "msgofmt" /\ r.o.dir # <<>> /\ r.args = <<>>
\* The files of Go sources below the path p, those excluded left out.
Excluded(r, fs, p) ==
    LET names == r.o.exclude \o (IF r.o.excludefile # <<>> /\ IsFile(fs, r.o.excludefile) THEN Lines(Data(fs, r.o.excludefile)) ELSE <<>>)
    IN \E i \in 1..Len(names) : Under(CleanPath(p), CleanPath(IF r.o.dir = <<>> THEN names[i] ELSE JoinPath(r.o.dir, names[i])))
GoFiles(r, fs, p) ==
    LET below == IF IsDir(fs, p) THEN FilesBelow(fs, p) ELSE IF IsFile(fs, p) THEN <<CleanPath(p)>> ELSE <<>>
    IN SelectSeq(below, LAMBDA q : HasExt(q, EXT_GO) /\ ~Excluded(r, fs, q))
\* The paths that a run names.
Named(r, fs) ==
    CASE r.tool = "msgofmt" -> IF WholeDir(r) THEN FilesIn(fs, r.o.dir) ELSE [i \in 1..Len(r.args) |-> InDir(r, r.args[i])]
      [] r.tool = "msgounfmt" -> IF r.args = <<>> THEN <<DASH>> ELSE r.args
      [] r.tool = "msgocat" -> r.args \o Listed(r, fs) \o (IF r.o.dir = <<>> THEN <<>> ELSE FilesIn(fs, r.o.dir))
      [] r.tool = "msgomerge" -> [i \in 1..Len(r.args) |-> InDir(r, r.args[i])] \o [i \in 1..Len(r.o.comp) |-> InDir(r, r.o.comp[i])]
      [] r.tool = "xgotext" -> [i \in 1..Len(IF r.o.from = <<>> THEN r.args ELSE Listed(r, fs)) |->
                                 InDir(r, IF r.o.from = <<>> THEN r.args[i] ELSE Listed(r, fs)[i])]
Inputs(r, fs) ==
    LET named == Named(r, fs) IN
    CASE r.tool = "msgofmt" /\ WholeDir(r) -> LET pos == SelectSeq(named, LAMBDA p : HasExt(p, EXT_PO)) IN [i \in 1..Len(pos) |-> In(pos[i], "po")]
      [] r.tool \in {"msgofmt", "msgocat", "msgomerge"} -> [i \in 1..Len(named) |-> In(named[i], "po")]
      [] r.tool = "msgounfmt" -> [i \in 1..Len(named) |-> In(named[i], "mo")]
      [] r.tool = "xgotext" -> Flat([i \in 1..Len(named) |->
            IF named[i] = DASH THEN <<In(DASH, "go")>> ELSE [k \in 1..Len(GoFiles(r, fs, named[i])) |-> In(GoFiles(r, fs, named[i])[k], "go")]])

(********************************* outputs *********************************)
OutPath(r) ==
    CASE r.tool = "msgofmt" -> LET o == IF r.o.hasout THEN r.o.out ELSE MESSAGES_MO IN IF o = DASH THEN o ELSE IF r.o.dir # <<>> THEN JoinPath(r.o.dir, o) ELSE o
      [] r.tool = "xgotext" -> IF ~r.o.hasout \/ r.o.out = DASH THEN DASH
                               ELSE JoinPath(r.o.outdir, IF r.o.out = <<>> THEN r.o.domain \o EXT_POT ELSE r.o.out)
      [] OTHER -> IF r.o.hasout THEN r.o.out ELSE DASH
MoOf(p) == SubSeq(p, 1, Len(p) - 3) \o EXT_MO
Outs(r, fs) ==
    (IF WholeDir(r) THEN {MoOf(Inputs(r, fs)[i].p) : i \in 1..Len(Inputs(r, fs))}
     ELSE IF OutPath(r) = DASH THEN {} ELSE {CleanPath(OutPath(r))})
    \union (IF r.tool = "msgomerge" /\ r.o.update /\ r.args # <<>> THEN {CleanPath(InDir(r, r.args[1]))} ELSE {})
\* Tools that do not replace an existing file unless told to.
Exclusive(r) == r.tool \in {"msgofmt", "msgounfmt"} /\ ~r.o.force
Joins(r, fs) == r.tool = "xgotext" /\ r.o.join /\ OutPath(r) # DASH /\ IsFile(fs, OutPath(r))

(******************************** failures *********************************)
Content(r, fs, x) == IF x.p = DASH THEN r.stdin ELSE Data(fs, x.p)
PoBad(d) == P!Read(d, P!DefaultOpt).st = "bad"
\* Brackets that do not match: not a Go program.
GoBroken(d) ==
    LET ts == G!Tokens(d) dep == G!Depths(ts)
    IN ts = <<>> \/ ts[1].k # "id" \/ dep[Len(dep)].after # 0 \/ \E i \in 1..Len(dep) : dep[i].at < 0
GoBad(d) == GoBroken(d) \/ G!Extract(d, <<>>, FALSE).bad
Bad(r, k, d) == CASE k = "po" -> PoBad(d) [] k = "mo" -> M!MoRead(d).st = "bad" [] k = "go" -> GoBroken(d) \/ G!Extract(d, <<>>, r.o.all).bad
Missing(r, fs) ==
    \/ \E i \in 1..Len(Named(r, fs)) : LET p == Named(r, fs)[i] IN p # DASH /\ ~IsFile(fs, p) /\ ~(r.tool = "xgotext" /\ IsDir(fs, p))
    \/ r.o.dir # <<>> /\ ~IsDir(fs, r.o.dir) /\ (r.tool = "msgocat" \/ WholeDir(r))
    \/ r.tool \in {"msgocat", "xgotext"} /\ r.o.from # <<>> /\ r.o.from # DASH /\ ~IsFile(fs, r.o.from)
    \/ r.tool = "xgotext" /\ r.o.excludefile # <<>> /\ ~IsFile(fs, r.o.excludefile)
\* Messages that are defined twice by files that are compiled together.
Conflicting(r, fs) ==
    /\ r.tool = "msgofmt" /\ ~WholeDir(r)
    /\ LET ins == Inputs(r, fs) rd(i) == P!Read(Content(r, fs, ins[i]), [P!DefaultOpt EXCEPT !.clean = FALSE])
       IN /\ \A i \in 1..Len(ins) : rd(i).st = "ok"
          /\ ~C!Distinct(Flat([i \in 1..Len(ins) |-> rd(i).es]))
Repeated(r, fs) ==
    /\ r.tool = "msgounfmt" /\ ~r.o.ignore
    /\ \E i \in 1..Len(Inputs(r, fs)) : LET x == M!MoRead(Content(r, fs, Inputs(r, fs)[i])) IN
          \E a, b \in 1..Len(x.strs) : a # b /\ C!Key(M!Decode(x.strs[a])) = C!Key(M!Decode(x.strs[b]))
BadOptions(r, fs) ==
    \/ r.o.bogus
    \/ r.tool = "msgofmt" /\ r.args = <<>> /\ r.o.dir = <<>>
    \/ r.tool = "msgomerge" /\ Len(r.args) # 2
    \/ r.tool = "msgocat" /\ (\/ Named(r, fs) = <<>>
                              \/ r.o.hasless /\ r.o.less <= 1
                              \/ r.o.hasless /\ r.o.unique
                              \/ r.o.noloc /\ r.o.hasaddloc
                              \/ r.o.sort /\ r.o.sortfile)
    \/ r.tool = "xgotext" /\ r.o.join /\ OutPath(r) = DASH
OutBad(r, fs) == \E p \in Outs(r, fs) : IsDir(fs, p) \/ ~IsDir(fs, Parent(p))
Protected(r, fs) == Exclusive(r) /\ \E p \in Outs(r, fs) : IsFile(fs, p)
MustFail(r, fs) ==
    IF BadOptions(r, fs) \/ Missing(r, fs) \/ OutBad(r, fs) \/ Protected(r, fs) THEN TRUE
    ELSE \/ \E i \in 1..Len(Inputs(r, fs)) : Bad(r, Inputs(r, fs)[i].k, Content(r, fs, Inputs(r, fs)[i]))
         \/ Joins(r, fs) /\ PoBad(Data(fs, OutPath(r)))
         \/ Conflicting(r, fs) \/ Repeated(r, fs)

(************************** what may be left behind ************************)
SameAt(a, b, p) ==
    LET i == SelectInSeq(a, LAMBDA f : f.p = p) j == SelectInSeq(b, LAMBDA f : f.p = p)
    IN IF i = 0 THEN j = 0 ELSE j # 0 /\ a[i] = b[j]
FailedErrors(before, after) ==
    IF \A p \in PathsOf(before) : SameAt(before, after, p) THEN {} ELSE {"a failed run changes a file"}
DoneErrors(r, before, after) ==
    LET outs == Outs(r, before) IN
    (IF \A p \in (PathsOf(before) \union PathsOf(after)) \ outs : SameAt(before, after, p) THEN {} ELSE {"a run changes another file than its output"})
    \union (IF \A p \in outs : IsFile(after, p) THEN {} ELSE {"the output is not written"})
    \union (IF MustFail(r, before) THEN {"a run that must fail does not"} ELSE {})
RunErrors(r, before, after, exit) == IF exit = 0 THEN DoneErrors(r, before, after) ELSE FailedErrors(before, after)
=============================================================================
