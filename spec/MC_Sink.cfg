\* C24
CONSTANTS Out <- const_Out  CAP = 4
INIT Init
NEXT Next
INVARIANTS Reported Beginning
CHECK_DEADLOCK FALSE
