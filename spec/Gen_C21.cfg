CONSTANT WIDE = FALSE
INIT GInit
NEXT GNext
INVARIANT Emit
