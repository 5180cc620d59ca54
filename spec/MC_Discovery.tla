---------------------------- MODULE MC_Discovery ----------------------------
EXTENDS Discovery
const_IsGo(n) == n \in {"x.go", "y.go", "d.go"}
F(p) == [p |-> p, dir |-> FALSE, good |-> TRUE]
D(p) == [p |-> p, dir |-> TRUE, good |-> TRUE]
Bad(p) == [p |-> p, dir |-> FALSE, good |-> FALSE]
Base == {D(<<"w">>), F(<<"w", "x.go">>), D(<<"w", "a">>), F(<<"w", "a", "x.go">>)}
More == {F(<<"y.go">>), F(<<"w", "t">>), D(<<"w", "d.go">>), D(<<"w", "ab">>), Bad(<<"w", "a", "y.go">>)}
const_Trees == {Base \union m : m \in SUBSET More} \union {Base \union More \union {F(<<"w", "d.go", "x.go">>), F(<<"w", "ab", "x.go">>)}}
R(c) == [abs |-> FALSE, c |-> c]
A(c) == [abs |-> TRUE, c |-> c]
const_Paths == {R(<<".">>), R(<<"x.go">>), R(<<"a">>), R(<<"a", "">>), R(<<".", "a", "", "x.go">>), R(<<"a", "..", "x.go">>), R(<<"..">>),
                R(<<"no", "..", "x.go">>), R(<<"x.go", "">>), R(<<"..", "w", "ab">>), R(<<"d.go">>), R(<<"t">>), A(<<"w", "a">>), A(<<"y.go">>), R(<<"a", "y.go">>)}
const_Excl == {R(<<"a">>), R(<<"x.go">>), R(<<"a", "y.go">>), R(<<"no", "..", "ab", "">>), A(<<"w">>), R(<<"d.go">>)}
const_PathLists == UNION {[1..n -> const_Paths] : n \in 1..2}
const_Exclusions == UNION {[1..n -> const_Excl] : n \in 0..1}
const_CWD == <<"w">>
const_Few == {Base \union More \union {F(<<"w", "d.go", "x.go">>), F(<<"w", "ab", "x.go">>)}, Base \union (More \ {Bad(<<"w", "a", "y.go">>)})}
=============================================================================
