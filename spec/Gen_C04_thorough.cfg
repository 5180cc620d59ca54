INIT GInit
NEXT Next
INVARIANT Emit
CONSTANTS MAX = 1 FEW = FALSE
CHECK_DEADLOCK FALSE
