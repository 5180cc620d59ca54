\* C25
CONSTANTS Procs = {"p", "q"}  Shared = {"cat1", "cat2"}  Programs <- const_Longer  LOCKED = TRUE
INIT Init
NEXT Next
INVARIANTS Sequential NoRace SharedKept
CHECK_DEADLOCK FALSE
