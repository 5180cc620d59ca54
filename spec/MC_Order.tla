------------------------------- MODULE MC_Order -------------------------------
(* Every comparison is a total preorder on all triples of small values. *)
EXTENDS Order
VARIABLES a, b, c
L == [f : {<<97>>, <<46, 47, 97>>, <<98>>}, l : {1, 2}]
L2 == {[f |-> <<97>>, l |-> 2], [f |-> <<98>>, l |-> 1]}
Locs == {<<>>} \union {<<x>> : x \in L} \union {<<x, y>> : x \in L2, y \in L2}
Msgs == {[NoEntry EXCEPT !.obs = o, !.flags = f, !.locs = l] : o \in BOOLEAN, f \in {<<>>, <<FUZZY>>}, l \in {<<>>} \union {<<x>> : x \in L2}}
    \union {[NoEntry EXCEPT !.locs = l] : l \in Locs}
    \union {[NoEntry EXCEPT !.id = i, !.ctx = x, !.str = s] : i \in {<<>>, <<97>>, <<97, 97>>}, x \in {<<>>, <<97>>}, s \in {<<>>, <<97>>}}
    \union {[NoEntry EXCEPT !.forms = f] : f \in {<<>>, <<[i |-> 0, s |-> <<97>>]>>, <<[i |-> 1, s |-> <<>>]>>, <<[i |-> 0, s |-> <<97>>], [i |-> 1, s |-> <<>>]>>}}
Init == a \in Msgs /\ b = NoEntry /\ c = NoEntry
Next == b = NoEntry /\ c = NoEntry /\ b' \in Msgs /\ c' \in Msgs /\ UNCHANGED a
Laws(C(_, _)) == /\ C(a, a) = 0 /\ C(a, b) = -C(b, a)
                 /\ (C(a, b) <= 0 /\ C(b, c) <= 0) => C(a, c) <= 0
                 /\ C(a, b) = 0 => C(a, c) = C(b, c)
TotalPreorders == \A o \in EntryOrders : Laws(LAMBDA x, y : CmpEntry(o, x, y))
\* The full order refines the keys it is made of, in their turn.
Consistent == /\ ByAll(a, b) <= 0 => ByObsolete(a, b) <= 0
              /\ (ByAll(a, b) <= 0 /\ ByObsolete(a, b) = 0) => ByFuzzy(a, b) <= 0
              /\ ByLocation(a, b) = 0 => (ByFile(a, b) = 0 /\ ByLine(a, b) = 0)
              /\ (a.locs # <<>> /\ b.locs # <<>> /\ CmpLoc(a.locs[1], b.locs[1]) = 0) => LocByFile(a.locs[1], b.locs[1]) = 0
=============================================================================
