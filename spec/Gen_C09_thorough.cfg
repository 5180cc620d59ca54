INIT Init
NEXT Next
INVARIANT Emit
CONSTANTS MAX = 3 LEN = 2
CHECK_DEADLOCK FALSE
