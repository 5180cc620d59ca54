CONSTANTS Args <- const_Args  Excl <- const_Excl  LEN = 2  XLEN = 1
INIT Init
NEXT Next
INVARIANT Emitted
CHECK_DEADLOCK FALSE
