\* C10
CONSTANTS NES = 3 NLOCS = 3 NFORMS = 3
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
