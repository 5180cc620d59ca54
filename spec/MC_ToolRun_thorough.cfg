\* C22
CONSTANTS Paths = {p1, p2, p3} MAXIN = 2 MAXOUT = 2 RUNS = 3
SPECIFICATION Spec
INVARIANTS TypeOK FailedChangesNothing DoneChangesOnlyOutputs DoneWritesTheResult NothingReplacedUnasked NoOutputLost
