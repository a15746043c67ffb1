SPECIFICATION Spec
CONSTANTS N = 3 MaxIn = 2 Passes = 3 Emit = FALSE
INVARIANTS OnlyWhenReady Once Complete Refusal LoopsNeverRun NoLoopAllRun Permutation
CHECK_DEADLOCK FALSE
