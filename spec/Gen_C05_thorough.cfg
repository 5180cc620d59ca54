\* C05
CONSTANTS MAX = 3 WAYS = {0, 1, 3, 4}
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
