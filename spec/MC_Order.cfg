\* C10: comparisons on all triples of small messages
INIT Init
NEXT Next
INVARIANTS TotalPreorders Consistent
CHECK_DEADLOCK FALSE
