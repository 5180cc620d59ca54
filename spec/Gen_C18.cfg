INIT Init
NEXT Next
INVARIANT Emit
CONSTANTS LEN = 3 MODES = {0, 1}
CHECK_DEADLOCK FALSE
