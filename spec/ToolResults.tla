------------------------------ MODULE ToolResults ------------------------------
(***************************************************************************)
(* What the command-line tools must produce: the operations of the other   *)
(* modules, applied to the files that a run names.                         *)
(***************************************************************************)
EXTENDS Tools
K == INSTANCE Concat
W == INSTANCE Merge
O == INSTANCE PoOptions
R == INSTANCE Order
H == INSTANCE Header

ReadOut(t) == P!Read(t, [P!DefaultOpt EXCEPT !.clean = FALSE])
ReadIn(t) == P!Read(t, P!DefaultOpt).es
Cfg(o) == [omit |-> o.omit, nol |-> o.noloc, cfuzzy |-> FALSE, manage |-> FALSE, hcom |-> FALSE, hfields |-> FALSE, foreign |-> FALSE,
           loc |-> IF o.hasaddloc THEN o.addloc ELSE "full", pre |-> o.pre, suf |-> o.suf, title |-> <<>>, holder |-> <<>>,
           pkg |-> <<>>, hashc |-> FALSE, hc |-> <<>>]
Messages(ins, r, fs) == [i \in 1..Len(ins) |-> ReadIn(Content(r, fs, ins[i]))]

(********************************* msgofmt *********************************)
\* The bytes b are what compiling es gives.
MoErrors(b, es, o) ==
    LET ms == M!Sorted(M!MoMessages(es))
        file == M!MoRead(b)
        be == o.endian = "big"
    IN IF file.st # "ok" THEN {"the output is no MO file"}
       ELSE (IF [i \in 1..Len(file.strs) |-> M!Decode(file.strs[i])] = [i \in 1..Len(ms) |-> M!MoProjection(ms[i])] THEN {} ELSE {"the MO file holds other messages"})
            \union (IF M!Order(b) = (IF be THEN "be" ELSE "le") THEN {} ELSE {"another byte order"})
            \union (IF (M!Hdr(b, be).s = 0) = o.nohash THEN {} ELSE {"the hash table"})
FmtErrors(r, fs, after, text) ==
    LET ins == Inputs(r, fs) IN
    IF WholeDir(r) THEN UNION {MoErrors(Data(after, MoOf(ins[i].p)), ReadIn(Data(fs, ins[i].p)), r.o) : i \in 1..Len(ins)}
    ELSE MoErrors(text, Flat(Messages(ins, r, fs)), r.o)

(******************************** msgounfmt ********************************)
MoEntries(b) == LET x == M!MoRead(b) IN [i \in 1..Len(x.strs) |-> M!Decode(x.strs[i])]
UnfmtErrors(r, fs, es) ==
    LET want == Flat([i \in 1..Len(Inputs(r, fs)) |-> MoEntries(Content(r, fs, Inputs(r, fs)[i]))]) IN
    IF r.o.sort
    THEN IF R!SameBag(es, want) /\ R!Ascending(es, R!ByID) THEN {} ELSE {"not the messages of the MO files, sorted"}
    ELSE IF es = want THEN {} ELSE {"not the messages of the MO files"}

(********************************* msgocat *********************************)
LANGUAGE == <<76, 97, 110, 103, 117, 97, 103, 101>>
Definitions(r, fs) ==
    Flat([i \in 1..Len(Named(r, fs)) |->
        LET es == ReadIn(Content(r, fs, In(Named(r, fs)[i], "po"))) IN [k \in 1..Len(es) |-> [file |-> Named(r, fs)[i], e |-> es[k]]]])
CatCfg(o) == [first |-> o.first, more |-> IF o.hasmore THEN o.more ELSE 0, less |-> IF o.unique THEN 2 ELSE IF o.hasless THEN o.less ELSE -1]
InOrder(es, ks) == [i \in 1..Len(ks) |-> C!At(es, ks[i])]
LangErrors(out, defs, o) ==
    LET hs == K!NonEmpty({K!Defs(defs, <<>>)[i].e.str : i \in 1..Len(K!Defs(defs, <<>>))})
        first == K!Defs(defs, <<>>)[1].e.str
        got == H!HFields(C!At(out, <<>>).str)
    IN (IF H!HLoad(got, LANGUAGE) = o.lang THEN {} ELSE {"the language is not set"})
       \union (IF (Cardinality(hs) <= 1 \/ o.first)
                  /\ got # H!HSet(H!HFields(IF o.first \/ hs = {} THEN first ELSE CHOOSE x \in hs : TRUE), LANGUAGE, o.lang)
               THEN {"setting the language changes other fields"} ELSE {})
CatErrors(r, fs, es) ==
    LET defs == Definitions(r, fs)
        cfg == CatCfg(r.o)
        ks == K!Selected(defs, cfg)
        lang == r.o.haslang /\ r.o.lang # <<>> /\ \E i \in 1..Len(ks) : ks[i] = <<>>
    IN IF ~(C!Distinct(es) /\ C!Keys(es) = Rng(ks)) THEN {"the selection of messages is wrong"}
       ELSE LET plain == InOrder(es, ks)
                accum == K!Result(FoldLeft(LAMBDA acc, d : K!Take(acc, d, cfg), <<>>, defs), cfg)
                out == IF lang THEN [i \in 1..Len(plain) |-> IF ks[i] = <<>> THEN [plain[i] EXCEPT !.str = C!At(accum, <<>>).str] ELSE plain[i]] ELSE plain
                parts == <<C!Live(es), C!Obsolete(es)>>
            IN K!Errors(out, defs, cfg)
               \union (IF lang THEN LangErrors(es, defs, r.o) ELSE {})
               \union (IF es = parts[1] \o parts[2] THEN {} ELSE {"obsolete messages between the others"})
               \union (CASE r.o.sort -> IF \A i \in 1..2 : R!Ascending(parts[i], R!ByAll) THEN {} ELSE {"not sorted"}
                         [] r.o.sortfile -> IF \A i \in 1..2 : R!Ascending(parts[i], R!ByFile) THEN {} ELSE {"not sorted by file"}
                         [] OTHER -> IF parts[1] = C!Live(plain) /\ parts[2] = C!Obsolete(plain) THEN {} ELSE {"another order"})

(******************************** msgomerge ********************************)
\* The reference and the compendia together, all messages of a key as one; a key of which
\* all messages are obsolete is left out.
Groups(all) ==
    LET ks == FoldLeft(LAMBDA acc, e : IF \E i \in 1..Len(acc) : acc[i] = C!Key(e) THEN acc ELSE Append(acc, C!Key(e)), <<>>, all)
        gs == [i \in 1..Len(ks) |-> SelectSeq(all, LAMBDA e : C!Key(e) = ks[i])]
    IN SelectSeq(gs, LAMBDA g : \E i \in 1..Len(g) : ~g[i].obs)
Firsts(gs) == [i \in 1..Len(gs) |-> [gs[i][1] EXCEPT !.obs = FALSE]]
CoversGroups(out, gs) == \A i \in 1..Len(gs) : LET g == gs[i] k == C!Key(g[1]) IN
    k = <<>> \/ (/\ W!Has(out, k)
                 /\ LET o == W!At(out, k) IN
                    /\ o.id = g[1].id /\ o.ctx = g[1].ctx /\ ~o.obs /\ o.locs = C!AllLocs(g)
                    /\ \E j \in 1..Len(g) : o.pl = g[j].pl
                    /\ \E j \in 1..Len(g) : o.ext = g[j].ext)
\* gs: the groups of the reference.
MergedErrors(out, def, gs, cfg) ==
    LET ref == Firsts(gs) IN
    (IF CoversGroups(out, gs) THEN {} ELSE {"a reference message is missing or wrong"})
    \union (IF W!NoMore(out, def, ref) THEN {} ELSE {"duplicate or invented messages"})
    \union (IF W!KeepsExact(out, def, ref) THEN {} ELSE {"a translation of an exact match is not kept"})
    \union (IF W!DropsNothing(out, def, ref, cfg) THEN {} ELSE {"an unmatched message is not kept"})
    \union (IF W!KeepsHeader(out, def) THEN {} ELSE {"the header is changed"})
    \union (IF W!SortedAs(out, cfg) THEN {} ELSE {"not sorted"})
    \* Only guesses and the reference's own translations can fill a message that def does not have.
    \union (IF cfg.fuzzy THEN {}
            ELSE IF \A i \in 1..Len(out) : LET o == out[i] IN
                       C!IsHeader(o) \/ W!Has(def, C!Key(o))
                       \/ \A k \in 1..Len(gs) : C!Key(gs[k][1]) = C!Key(o) =>
                            \E x \in Rng(gs[k]) : W!SameTranslation(o, x) \/ (x.forms = <<>> /\ o.str = x.str) \/ C!AsPlural(C!Translation(x)) = C!Translation(o)
                 THEN {} ELSE {"a guess without fuzzy matching"})
MergeErrors(r, fs, after, text, es) ==
    LET ins == Inputs(r, fs)
        all == Messages(ins, r, fs)
    IN MergedErrors(es, all[1], Groups(Flat(Tail(all))), [fuzzy |-> ~r.o.nofuzzy, keep |-> FALSE, sort |-> TRUE, mode |-> "all"])
       \union (IF r.o.update /\ Data(after, ins[1].p) # text THEN {"the updated file holds something else"} ELSE {})

(********************************* xgotext *********************************)
STDIN == <<47, 100, 101, 118, 47, 115, 116, 100, 105, 110>>
PLURALS == <<80, 108, 117, 114, 97, 108, 45, 70, 111, 114, 109, 115>>
Sources(r, fs) == [i \in 1..Len(Inputs(r, fs)) |-> LET x == Inputs(r, fs)[i] IN
    [name |-> IF x.p = DASH THEN STDIN ELSE x.p, src |-> Content(r, fs, x)]]
GoErrors(r, fs, es) ==
    LET xs == G!MsgsOf(Sources(r, fs), r.o.all)
        tail == [i \in 1..Len(es) - 1 |-> C!Unfilled(es[i + 1])]
        hf == H!HFields(es[1].str)
        call == G!InCallOrder(xs)
    IN IF es = <<>> \/ ~C!IsHeader(es[1]) THEN {"no header"}
       ELSE (IF H!HLoad(hf, LANGUAGE) = (IF r.o.haslang THEN r.o.lang ELSE <<101, 110>>) THEN {} ELSE {"the header has another language"})
            \union (IF IF r.o.all THEN G!HoldsBag(tail, call, TRUE) ELSE G!HoldsOrdered(tail, call, TRUE) \/ G!HoldsOrdered(tail, G!InTextOrder(xs), TRUE)
                    THEN {} ELSE {"not the messages of the sources"})
            \union (IF r.o.all \/ G!RefsAgree(tail, call) \/ G!RefsAgree(tail, G!InTextOrder(xs)) THEN {} ELSE {"not the references of the sources"})
\* Joining the messages ref (as extracted, header first) with an existing file.
JoinErrors(out, old, ref) ==
    LET def == IF C!IndexIdCtx(old, <<>>, <<>>) = 0 THEN <<ref[1]>> \o old ELSE old
    IN MergedErrors(out, def, Groups(ref), [fuzzy |-> FALSE, keep |-> FALSE, sort |-> TRUE, mode |-> "all"])

(***************************************************************************)
ResultErrors(r, fs, after, text) ==
    IF r.tool = "msgofmt" THEN FmtErrors(r, fs, after, text)
    ELSE LET out == ReadOut(text) IN
         IF out.st # "ok" THEN {"the output is no PO file"}
         ELSE CASE r.tool = "msgounfmt" -> UnfmtErrors(r, fs, out.es)
                [] r.tool = "msgocat" -> CatErrors(r, fs, out.es)
                [] r.tool = "msgomerge" -> MergeErrors(r, fs, after, text, out.es)
                [] r.tool = "xgotext" -> GoErrors(r, fs, out.es)
TextOf(r, after, stdout) == IF WholeDir(r) THEN <<>> ELSE IF OutPath(r) = DASH THEN stdout ELSE Data(after, OutPath(r))
=============================================================================
