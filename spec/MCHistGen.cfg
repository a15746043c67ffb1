SPECIFICATION Spec
CONSTANTS MaxRows = 3 Grow = {1, 2, 1000} MaxLen = 9 Emit = TRUE
VIEW View
INVARIANTS TrackedOnce
CHECK_DEADLOCK FALSE
