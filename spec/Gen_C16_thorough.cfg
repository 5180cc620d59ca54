INIT Init
NEXT Next
INVARIANT Emit
CONSTANT MODES = {0, 1, 2, 3, 4, 5, 6}
CHECK_DEADLOCK FALSE
