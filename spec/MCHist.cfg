SPECIFICATION Spec
CONSTANTS MaxRows = 3 Grow = {1} MaxLen = 10 Emit = FALSE
VIEW View
INVARIANTS TrackedOnce OnlyValues RowShape RowsKept
CHECK_DEADLOCK FALSE
