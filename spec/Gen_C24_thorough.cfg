\* C24
CONSTANTS CALLS = 3 BIGCALLS = 2 SIZES = {4090, 8200} OPTS = {0, 1, 2, 4, 16}
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
