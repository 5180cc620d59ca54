INIT Init
NEXT Next
INVARIANT Emit
CONSTANTS LEN = 3 WIDE = TRUE
CHECK_DEADLOCK FALSE
