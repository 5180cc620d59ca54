INIT Init
NEXT Next
INVARIANT Emit
CONSTANTS LEN = 4 MODES = {0, 1, 2}
CHECK_DEADLOCK FALSE
