INIT Init
NEXT Next
INVARIANT Emit
CONSTANT MODES = {0}
CHECK_DEADLOCK FALSE
