SPECIFICATION Spec
CONSTANTS N = 2 Short = FALSE SharedScratch = FALSE SharedStack = FALSE Emit = TRUE
CHECK_DEADLOCK FALSE
