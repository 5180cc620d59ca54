\* C08
CONSTANTS MAX = 4 FORMS = 5
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
