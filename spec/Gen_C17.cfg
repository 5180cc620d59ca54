INIT Init
NEXT Next
INVARIANT Emit
CONSTANTS LEN = 3 WIDE = FALSE
CHECK_DEADLOCK FALSE
