\* C23, ONE WORKER
CONSTANT LEN = 6
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
