INIT Init
NEXT Next
INVARIANT Emit
CONSTANTS Catalogues <- const_Catalogues  Chosen <- const_Few  Values <- const_FewValues
CHECK_DEADLOCK FALSE
