\* C13 C14: all merges of small catalogues
INIT Init
NEXT Next
INVARIANTS Coverage Keeping Guessing
CONSTANT MAX = 2
CHECK_DEADLOCK FALSE
