\* C17
CONSTANTS DEPTH = 4 RUNS = 2
SPECIFICATION Spec
INVARIANT Mirrors
PROPERTY Temporary
