\* C19 C20 C21
CONSTANT WIDE = TRUE
INIT Init
NEXT Next
INVARIANT ReadsTheProgram
CHECK_DEADLOCK FALSE
