\* C08 C09: histories of operations on all small catalogues
INIT Init
NEXT Next
INVARIANTS MapLaws FilterLaws DuplicateLaws
CONSTANT MAX = 3
CHECK_DEADLOCK FALSE
