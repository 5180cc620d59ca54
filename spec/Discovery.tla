------------------------------ MODULE Discovery ------------------------------
(***************************************************************************)
(* Finding the Go files that a list of paths names (C26).                  *)
(*                                                                         *)
(* A tree is a set of nodes [p |-> names from the root, dir |-> BOOLEAN,   *)
(* good |-> the file can be parsed]; the root itself is a directory.  A    *)
(* path is a sequence of components, "" (nothing between two slashes), "." *)
(* and ".." among them, that starts at Cwd, or at the root if abs.         *)
(*                                                                         *)
(* The first part says what must be read; the second is the program that   *)
(* walks, whose every end must agree with it.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS NONE, DOT, DOTDOT,   \* the special components
          IsGo(_)              \* whether a name is that of a Go file

Beg(path, cwd) == IF path.abs THEN <<>> ELSE cwd
Node(t, p) == CHOOSE n \in t : n.p = p
Exists(t, p) == p = <<>> \/ \E n \in t : n.p = p
Directory(t, p) == p = <<>> \/ \E n \in t : n.p = p /\ n.dir

\* Where a path leads by its text alone.
Lexical(path, cwd) ==
    FoldLeft(LAMBDA at, c : IF c \in {NONE, DOT} THEN at
                            ELSE IF c = DOTDOT THEN (IF at = <<>> THEN at ELSE Front(at))
                            ELSE Append(at, c), Beg(path, cwd), path.c)
\* Where it leads in a tree: [ok, at].  All but the last name must be directories.
Lead(t, path, cwd) ==
    FoldLeft(LAMBDA s, c : IF ~s.ok \/ ~Directory(t, s.at) THEN [ok |-> FALSE, at |-> <<>>]
                           ELSE IF c \in {NONE, DOT} THEN s
                           ELSE IF c = DOTDOT THEN [ok |-> TRUE, at |-> IF s.at = <<>> THEN <<>> ELSE Front(s.at)]
                           ELSE [ok |-> Exists(t, Append(s.at, c)), at |-> Append(s.at, c)],
             [ok |-> TRUE, at |-> Beg(path, cwd)], path.c)

Within(p, d) == IsPrefix(d, p)
Excluded(p, excl, cwd) == \E i \in 1..Len(excl) : Within(p, Lexical(excl[i], cwd))
\* The Go files that the paths name, exclusions apart.
Found(t, paths, excl, cwd) ==
    {n \in t : /\ ~n.dir /\ IsGo(Last(n.p)) /\ ~Excluded(n.p, excl, cwd)
               /\ \E i \in 1..Len(paths) : LET l == Lead(t, paths[i], cwd) IN l.ok /\ Within(n.p, l.at)}
Missing(t, paths, cwd) == {i \in 1..Len(paths) : ~Lead(t, paths[i], cwd).ok}
\* The run must fail.
Fails(t, paths, excl, cwd) == Missing(t, paths, cwd) # {} \/ \E n \in Found(t, paths, excl, cwd) : ~n.good

(* ---- the program ---- *)
CONSTANTS Trees, PathLists, Exclusions, CWD
VARIABLES tree, paths, excl,    \* the task
          next, pending,        \* the next path, what is still to be visited below the last one
          seen, read, failed
vars == <<tree, paths, excl, next, pending, seen, read, failed>>
Init == /\ tree \in Trees /\ paths \in PathLists /\ excl \in Exclusions
        /\ next = 1 /\ pending = {} /\ seen = {} /\ read = <<>> /\ failed = FALSE
Take == /\ ~failed /\ pending = {} /\ next <= Len(paths)
        /\ LET l == Lead(tree, paths[next], CWD) IN
           /\ failed' = ~l.ok
           /\ pending' = IF l.ok THEN {l.at} ELSE {}
        /\ next' = next + 1
        /\ UNCHANGED <<tree, paths, excl, seen, read>>
Children(p) == {n.p : n \in {m \in tree : Len(m.p) = Len(p) + 1 /\ IsPrefix(p, m.p)}}
Visit(p) == /\ ~failed /\ p \in pending
            /\ IF Directory(tree, p) THEN /\ pending' = (pending \ {p}) \union Children(p)
                                          /\ UNCHANGED <<seen, read, failed>>
               ELSE LET fresh == IsGo(Last(p)) /\ p \notin seen
                        wanted == fresh /\ ~Excluded(p, excl, CWD) IN
                    /\ pending' = pending \ {p}
                    /\ seen' = IF fresh THEN seen \union {p} ELSE seen
                    /\ read' = IF wanted THEN Append(read, p) ELSE read
                    /\ failed' = (wanted /\ ~Node(tree, p).good)
            /\ UNCHANGED <<tree, paths, excl, next>>
Next == Take \/ \E p \in pending : Visit(p)
Done == failed \/ (pending = {} /\ next > Len(paths))
\* Nothing is read twice, and at the end all that should be read was.
OnceEach == \A i, j \in 1..Len(read) : read[i] = read[j] => i = j
OnlyFound == Done => {read[i] : i \in 1..Len(read)} \subseteq {n.p : n \in Found(tree, paths, excl, CWD)}
Complete == Done /\ ~failed => {n.p : n \in Found(tree, paths, excl, CWD)} \subseteq {read[i] : i \in 1..Len(read)}
Reported == Done => failed = Fails(tree, paths, excl, CWD)
\* The order of the paths, repeating one, and naming a path below another make no difference.
Shuffled == (next = 1 /\ ~failed) => LET f(ps) == Found(tree, ps, excl, CWD) IN
            /\ f(Reverse(paths)) = f(paths)
            /\ f(paths \o paths) = f(paths)
            /\ Found(tree, paths, Reverse(excl), CWD) = f(paths)
=============================================================================
