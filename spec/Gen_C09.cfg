INIT Init
NEXT Next
INVARIANT Emit
CONSTANTS MAX = 2 LEN = 2
CHECK_DEADLOCK FALSE
