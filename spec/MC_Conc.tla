------------------------------- MODULE MC_Conc -------------------------------
EXTENDS Conc
Acc == {[k |-> "read", c |-> "cat1"], [k |-> "read", c |-> "cat2"], [k |-> "own", c |-> ""], [k |-> "table", c |-> ""]}
const_Programs == UNION {[1..n -> Acc] : n \in 1..2}
const_Longer == [1..3 -> Acc]
=============================================================================
