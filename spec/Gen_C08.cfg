\* C08
CONSTANTS MAX = 3 FORMS = 4
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
