INIT GInit
NEXT GNext
INVARIANT Emit
CONSTANTS Paths = {"p1", "p2", "p3"} MAXIN = 2 MAXOUT = 2 RUNS = 1 WIDE = TRUE
CHECK_DEADLOCK FALSE
