CONSTANT WIDE = FALSE
INIT Init
NEXT Next
INVARIANT Emit
