\* C12
INIT Init
NEXT Next
INVARIANTS RoundTrip EditLaws FormsLaw LineLaws
CONSTANTS LEN = 6 EDITS = 3
CHECK_DEADLOCK FALSE
