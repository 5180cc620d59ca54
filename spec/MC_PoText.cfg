\* C01 C02
INIT Init
NEXT Next
INVARIANTS LayoutIsFree TruncationIsSeen
CHECK_DEADLOCK FALSE
