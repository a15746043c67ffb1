SPECIFICATION Spec
CONSTANTS N = 4 MaxIn = 1 Passes = 2 Emit = FALSE
INVARIANTS OnlyWhenReady Once Complete Refusal LoopsNeverRun NoLoopAllRun Permutation
CHECK_DEADLOCK FALSE
