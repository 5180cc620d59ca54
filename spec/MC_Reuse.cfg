\* C18
CONSTANTS Inputs = {1, 2, 3} RUNS = 5
CONSTANT Meaning <- Errs
SPECIFICATION Spec
INVARIANTS SameAnswers NoCarryOver
PROPERTY AnswersKept
