SPECIFICATION Spec
CONSTANTS Emit = FALSE
INVARIANTS Served OrderFree Initials UnusedFound
CHECK_DEADLOCK FALSE
