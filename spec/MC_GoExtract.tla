---------------------------- MODULE MC_GoExtract ----------------------------
(* Reading the source of a program, in any layout, gives the program's messages. *)
EXTENDS GoProgram
CONSTANT WIDE
VARIABLES p, y
NAME == <<110>>
A == <<97>>
B == <<98, 96>>
Q == <<34, 92>>
NLS == <<10, 226, 130, 172>>
L(v) == [k |-> "lit", v |-> v]
X(k) == [k |-> k, v |-> B]
Texts4 == <<A, B, Q, NLS, <<99>>>>
Odd == {L(<<>>), L(A), L(NLS), X("id"), X("num"), X("chr"), X("sum"), X("call"), X("list")}
Base(m) == [i \in 1..Len(Roles[m]) |-> IF Roles[m][i] = "n" THEN X("num") ELSE L(Texts4[i])]
CallWith(m, who, args) == [k |-> "call", who |-> who, m |-> m, args |-> args]
OneOdd(m) == {CallWith(m, "pkg", [Base(m) EXCEPT ![i] = o]) : i \in 1..Len(Roles[m]), o \in Odd}
Cut(m) == {CallWith(m, "pkg", SubSeq(Base(m), 1, n)) : n \in 0..Len(Roles[m])}
More(m) == {CallWith(m, "pkg", Append(Base(m), o)) : o \in Odd}
All(m) == OneOdd(m) \union Cut(m) \union More(m)
Calls == UNION {All(m) : m \in DOMAIN Roles}
Lookalikes == {CallWith("Get", "field", <<L(A)>>), CallWith("GetN", "var", Base("GetN")), CallWith("Getter", "pkg", <<L(A)>>), CallWith("get", "pkg", <<L(Q)>>)}
Lits == {[k |-> "lit", args |-> <<o>>] : o \in Odd}
Few == Lookalikes \union {CallWith("Get", "pkg", <<L(A)>>), CallWith("Get", "pkg", <<L(NLS)>>), CallWith("GetN", "pkg", Base("GetN")), CallWith("GetC", "pkg", <<L(A), L(<<>>)>>), CallWith("GetC", "pkg", <<L(A)>>), CallWith("Get", "pkg", <<X("call")>>)}
       \union {[k |-> "lit", args |-> <<L(A)>>], [k |-> "lit", args |-> <<X("sum")>>]}
Blk == <<47, 42, 34, 42, 47>>                        \* a comment with a quote in it
Cmt == <<47, 47, 32, 103, 46, 71, 101, 116, 40, 34, 110, 34, 41, 10>>   \* // g.Get("n")
Layouts == [soft : {<<>>, <<32>>, Blk}, hard : {<<>>, <<10, 9>>, Cmt, <<13, 10>>}, q : {"dq", "raw", "hex"}, nl : {<<10>>, <<13, 10>>, <<59, 32>>}]
Plain == [soft |-> <<>>, hard |-> <<>>, q |-> "dq", nl |-> <<10>>]
Loose == [soft |-> Blk, hard |-> Cmt, q |-> "raw", nl |-> <<13, 10>>]
\* A program without gotext, whose calls look like its calls, means nothing in particular in extract-all mode.
Programs == {[imp |-> i, stmts |-> <<s>>] : i \in (IF WIDE THEN Imports ELSE {"plain", "second", "none"}), s \in Calls \union Lookalikes \union Lits}
            \union {[imp |-> i, stmts |-> <<s, t>>] : i \in (IF WIDE THEN Imports ELSE {"alias"}), s \in Few, t \in Few}
            \union (IF WIDE THEN {[imp |-> i, stmts |-> <<s, t, u>>] : i \in Imports, s \in Few, t \in Few, u \in Few} ELSE {})
            \union {[imp |-> i, stmts |-> <<s>>] : i \in Imports, s \in Few}
Init == p \in Programs /\ y = Plain
Small == Len(p.stmts) = 1 /\ p.stmts[1] \in Few
Next == y = Plain /\ y' \in (IF Small THEN Layouts ELSE {Loose}) \ {Plain} /\ UNCHANGED p
Ambiguous(all) == all /\ NameIn(p.imp) = <<>> /\ \E n \in 1..Len(p.stmts) : p.stmts[n].k = "call"
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in Rng(a) : Cardinality({i \in 1..Len(a) : a[i] = x}) = Cardinality({i \in 1..Len(b) : b[i] = x})
ReadsTheProgram ==
    LET s == Source(p, y) IN
    /\ LET x == Extract(s, NAME, FALSE) IN ByCall(x.msgs) = Meaning(p, y, NAME, FALSE) /\ (x.bad <=> IsBad(p)) /\ (x.imported <=> NameIn(p.imp) # <<>>)
    /\ Ambiguous(TRUE) \/ SameBag(ByLiteral(Extract(s, NAME, TRUE).msgs), Meaning(p, y, NAME, TRUE))
=============================================================================
