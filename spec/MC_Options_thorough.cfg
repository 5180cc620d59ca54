\* C17
CONSTANTS DEPTH = 5 RUNS = 3
SPECIFICATION Spec
INVARIANT Mirrors
PROPERTY Temporary
