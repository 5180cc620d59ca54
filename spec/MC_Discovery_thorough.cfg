\* C26
CONSTANTS NONE = ""  DOT = "."  DOTDOT = ".."  CWD <- const_CWD
CONSTANTS IsGo <- const_IsGo  Trees <- const_Trees  PathLists <- const_PathLists  Exclusions <- const_Exclusions
INIT Init
NEXT Next
INVARIANTS OnceEach OnlyFound Complete Reported Shuffled
CHECK_DEADLOCK FALSE
