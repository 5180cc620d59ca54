CONSTANT WIDE = TRUE
INIT GInit
NEXT GNext
INVARIANT Emit
