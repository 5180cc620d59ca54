\* C25
CONSTANTS Procs = {"p", "q", "r"}  Shared = {"cat1", "cat2"}  Programs <- const_Programs  LOCKED = TRUE
INIT Init
NEXT Next
INVARIANTS Sequential NoRace SharedKept
CHECK_DEADLOCK FALSE
