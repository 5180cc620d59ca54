\* C12
INIT Init
NEXT Next
INVARIANTS RoundTrip EditLaws FormsLaw LineLaws
CONSTANTS LEN = 5 EDITS = 2
CHECK_DEADLOCK FALSE
