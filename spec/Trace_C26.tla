------------------------------ MODULE Trace_C26 ------------------------------
(***************************************************************************)
(* C26: which files are read.                                              *)
(* out: tree = <<[p, dir, good]>>, args, excl, dir: paths [abs, c];        *)
(*      ways = <<[way, err, files, reads = <<[n, at, line]>>]>>            *)
(* The file number n of the tree uses the message Fn on line 4; the        *)
(* standard input uses F0.                                                 *)
(***************************************************************************)
EXTENDS TraceRun, FiniteSets
EndsWith(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
IsGoName(n) == EndsWith(n, <<46, 103, 111>>)
\* The operators that say what must be read.
D == INSTANCE Discovery WITH NONE <- <<>>, DOT <- <<46>>, DOTDOT <- <<46, 46>>, IsGo <- IsGoName,
        Trees <- {}, PathLists <- {}, Exclusions <- {}, CWD <- <<>>,
        tree <- {}, paths <- <<>>, excl <- <<>>, next <- 0, pending <- {}, seen <- {}, read <- <<>>, failed <- FALSE
HOME == << <<119>> >>
Nodes(r) == {r.out.tree[i] : i \in 1..Len(r.out.tree)}
\* With a directory, all paths are below it.
Below(r, p) == IF r.in.cli = 0 \/ r.in.dir = "" THEN p
               ELSE [abs |-> TRUE, c |-> D!Lexical([abs |-> r.out.dir.abs, c |-> r.out.dir.c \o p.c], HOME)]
Cli(r) == "cli" \in DOMAIN r.in /\ r.in.cli # 0
Args(r) == [i \in 1..Len(r.out.args) |-> IF Cli(r) THEN Below(r, r.out.args[i]) ELSE r.out.args[i]]
Named(r, i) == LET p == r.out.excl[i] IN p.abs \/ p.c # << <<>> >>
Excl(r) == LET all == [i \in 1..Len(r.out.excl) |-> IF Cli(r) THEN Below(r, r.out.excl[i]) ELSE r.out.excl[i]]
           IN [i \in 1..Cardinality({k \in 1..Len(all) : Named(r, k)}) |->
                 all[CHOOSE k \in 1..Len(all) : Named(r, k) /\ Cardinality({m \in 1..k : Named(r, m)}) = i]]
Stdin(r) == Cli(r) /\ r.in.stdin
NumberOf(r, n) == CHOOSE i \in 1..Len(r.out.tree) : r.out.tree[i] = n
\* Whether a path that is not there is excluded is left open, and so is whether that matters.
Open(r) == \E i \in 1..Len(r.out.args) : ~D!Lead(Nodes(r), Args(r)[i], HOME).ok /\ D!Excluded(D!Lexical(Args(r)[i], HOME), Excl(r), HOME)
Count(w, n) == Cardinality({i \in 1..Len(w.reads) : w.reads[i].n = n})
WayErrors(r, w) ==
    LET t == Nodes(r) fails == D!Fails(t, Args(r), Excl(r), HOME)
        found == {NumberOf(r, n) : n \in D!Found(t, Args(r), Excl(r), HOME)}
        all == {i \in 1..Len(r.out.tree) : ~r.out.tree[i].dir}
    IN IF fails THEN (IF w.err \/ Open(r) THEN {} ELSE {"a path that is not there, or a file that is not Go, is not reported"})
       ELSE IF w.err THEN {"an error without a reason"}
       ELSE (IF \A i \in found : Count(w, i) >= 1 THEN {} ELSE {"a file is not read"})
            \union (IF \A i \in found : Count(w, i) <= 1 THEN {} ELSE {"a file is read more than once"})
            \union (IF \A i \in all \ found : Count(w, i) = 0 THEN {} ELSE {"a file is read that is excluded or was not named"})
            \union (IF Count(w, 0) = (IF Stdin(r) THEN 1 ELSE 0) THEN {} ELSE {"the standard input"})
            \union (IF w.files \in {-1, Cardinality(found)} THEN {} ELSE {"the number of files"})
            \union (IF \A i \in 1..Len(w.reads) : w.reads[i].n = 0 \/
                          LET l == D!Lead(t, w.reads[i].at, HOME) IN
                          /\ l.ok /\ l.at = r.out.tree[w.reads[i].n].p /\ w.reads[i].line = 4
                    THEN {} ELSE {"a reference does not lead to the file"})
Check(r) == UNION {{c \o " (" \o r.out.ways[i].way \o ")" : c \in WayErrors(r, r.out.ways[i])} : i \in 1..Len(r.out.ways)}
Accepted == Judge(Check)
=============================================================================
