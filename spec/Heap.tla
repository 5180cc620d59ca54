--------------------------------- MODULE Heap ---------------------------------
(***************************************************************************)
(* Memory that catalogues share.  A message array holds cells [id, l] and  *)
(* l is a slice [o, n] of a list object (the first n elements of object    *)
(* o, which may have room for more).  A catalogue is a slice [a, n] of an  *)
(* array.  Operations either take new memory or change what they name:     *)
(*   filter, resolve: results in new arrays, lists only ever extended      *)
(*   into new objects; cells are copied with their list slices (shared);   *)
(*   sort, set: change the array of their own catalogue.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Names, ARRAYS, LISTS
VARIABLES arrays, lists, cat

ListOf(l) == SubSeq(lists[l.o], 1, l.n)
Cells(c) == SubSeq(arrays[c.a], 1, c.n)
Value(c) == [i \in 1..c.n |-> [id |-> arrays[c.a][i].id, l |-> ListOf(arrays[c.a][i].l)]]
New(r, cells) == /\ arrays' = Append(arrays, cells)
                 /\ cat' = [cat EXCEPT ![r] = [a |-> Len(arrays) + 1, n |-> Len(cells)]]
Init == /\ lists = <<<<1, 0>>, <<2>>>>                    \* the first object has room for one more
        /\ arrays = <<<<[id |-> 1, l |-> [o |-> 1, n |-> 1]], [id |-> 2, l |-> [o |-> 1, n |-> 1]], [id |-> 1, l |-> [o |-> 2, n |-> 1]]>>>>
        /\ cat = [c \in Names |-> [a |-> 1, n |-> IF c = CHOOSE x \in Names : TRUE THEN 3 ELSE 2]]

\* What is copied before it is changed is owned by one catalogue.
Owned(r) == \A c \in Names \ {r} : cat[c].a # cat[r].a
Filter(s, r) == /\ \E keep \in SUBSET {1, 2} : New(r, SelectSeq(Cells(cat[s]), LAMBDA x : x.id \in keep))
                /\ UNCHANGED lists
Joined(a, b) == ListOf(a.l) \o ListOf(b.l)
Resolve(s, r) ==
    LET cs == Cells(cat[s])
        first(i) == CHOOSE j \in 1..i : cs[j].id = cs[i].id /\ \A k \in 1..(j - 1) : cs[k].id # cs[i].id
        later == {i \in 1..Len(cs) : first(i) # i}
    IN IF later = {} THEN New(r, cs) /\ UNCHANGED lists
       ELSE \E i \in later :                       \* one duplicate at a time
              /\ lists' = Append(lists, Joined(cs[first(i)], cs[i]))
              /\ New(r, SubSeq([cs EXCEPT ![first(i)].l = [o |-> Len(lists) + 1, n |-> Len(Joined(cs[first(i)], cs[i]))]], 1, i - 1)
                        \o SubSeq(cs, i + 1, Len(cs)))
Sort(r) == /\ Owned(r)
           /\ arrays' = [arrays EXCEPT ![cat[r].a] = [i \in 1..Len(@) |-> IF i > cat[r].n THEN @[i] ELSE @[cat[r].n + 1 - i]]]
           /\ UNCHANGED <<lists, cat>>
Set(r) == /\ Owned(r) /\ cat[r].n > 0
          /\ arrays' = [arrays EXCEPT ![cat[r].a][1].id = 3 - @]
          /\ UNCHANGED <<lists, cat>>
Next == /\ Len(arrays) < ARRAYS /\ Len(lists) < LISTS
        /\ \E s, r \in Names : Filter(s, r) \/ Resolve(s, r) \/ Sort(r) \/ Set(r)
vars == <<arrays, lists, cat>>
Spec == Init /\ [][Next]_vars
\* Nothing but the catalogue that an operation names ever changes.
Frame == [][Cardinality({c \in Names : Value(cat[c])' # Value(cat[c])}) <= 1]_vars
\* Written memory is never memory that another catalogue sees.
OldKept == [][\A s, r \in Names : Filter(s, r) \/ Resolve(s, r) => \A c \in Names \ {r} : Value(cat[c])' = Value(cat[c])]_vars
=============================================================================
