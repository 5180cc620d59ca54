INIT Init
NEXT Stop
INVARIANT Emit
CONSTANT MAX = 1
CHECK_DEADLOCK FALSE
