\* C05 C06 C07: every layout of every small catalogue
INIT Init
NEXT Next
INVARIANTS Means Answers CutIsSeen
CONSTANTS Catalogues <- const_Catalogues  Chosen <- const_All
CHECK_DEADLOCK FALSE
