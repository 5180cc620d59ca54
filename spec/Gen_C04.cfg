INIT GInit
NEXT Next
INVARIANT Emit
CONSTANTS MAX = 1 FEW = TRUE
CHECK_DEADLOCK FALSE
