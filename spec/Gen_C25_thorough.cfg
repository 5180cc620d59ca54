\* C25
CONSTANTS WAYS = {0, 1, 2, 3, 5, 9, 14, 20} ROUNDS = 5
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
