SPECIFICATION Spec
CONSTANTS N = 2 MaxIn = 3 Passes = 3 Emit = FALSE
INVARIANTS OnlyWhenReady Once Complete Refusal LoopsNeverRun NoLoopAllRun Permutation
PROPERTY Terminates
CHECK_DEADLOCK FALSE
