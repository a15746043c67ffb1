SPECIFICATION Spec
CONSTANTS N = 3 Short = TRUE SharedScratch = FALSE SharedStack = FALSE Emit = TRUE
CHECK_DEADLOCK FALSE
