INIT GInit
NEXT GNext
INVARIANT Emit
CONSTANTS LEN = 4 EDITS = 2
CHECK_DEADLOCK FALSE
