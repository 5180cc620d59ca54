\* C10
CONSTANTS NES = 4 NLOCS = 4 NFORMS = 4
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
