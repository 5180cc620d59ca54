\* C04: every configuration on small catalogues
INIT Init
NEXT Next
INVARIANTS OnlyLocs OnlyTexts OnlyHeader OnlyFuzzy FieldsOnce Placeholders
CONSTANT MAX = 1
CHECK_DEADLOCK FALSE
