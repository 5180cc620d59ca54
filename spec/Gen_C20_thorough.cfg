CONSTANT WIDE = TRUE
INIT Init
NEXT Next
INVARIANT Emit
