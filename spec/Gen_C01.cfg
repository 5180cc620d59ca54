\* C01
CONSTANTS MAX = 2 WAYS = {0, 1, 2, 3, 4}
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
