INIT Init
NEXT Next
INVARIANT Emit
CONSTANTS Catalogues <- const_Catalogues  Chosen <- const_More  Values <- const_Values
CHECK_DEADLOCK FALSE
