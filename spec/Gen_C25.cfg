\* C25
CONSTANTS WAYS = {1} ROUNDS = 3
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
