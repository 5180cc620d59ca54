\* C24
CONSTANTS CALLS = 2 BIGCALLS = 2 SIZES = {4090, 8200} OPTS = {0, 3}
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
