INIT GInit
NEXT GNext
INVARIANT Emit
CONSTANTS LEN = 6 EDITS = 2
CHECK_DEADLOCK FALSE
