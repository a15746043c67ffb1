SPECIFICATION Spec
CONSTANTS Emit = TRUE
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
