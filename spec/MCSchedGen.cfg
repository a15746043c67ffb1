SPECIFICATION Spec
CONSTANTS N = 3 MaxIn = 2 Passes = 1 Emit = TRUE
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
CONSTRAINT Stop
