\* C15
CONSTANTS MAX = 3 FILES = 3
INIT Init
NEXT Next
INVARIANT NoErrors
