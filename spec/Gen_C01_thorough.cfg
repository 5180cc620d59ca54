\* C01
CONSTANTS MAX = 3 WAYS = {0, 3}
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
