CONSTANTS MAX = 2 FILES = 2
INIT Init
NEXT Next
INVARIANT Emit
