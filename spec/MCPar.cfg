SPECIFICATION Spec
CONSTANTS N = 4 Short = FALSE SharedScratch = FALSE SharedStack = FALSE Emit = FALSE
INVARIANTS AsAlone OwnFrames
PROPERTIES AllDone
CHECK_DEADLOCK FALSE
