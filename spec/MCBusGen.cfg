SPECIFICATION Spec
CONSTANTS MaxObj = 3 MaxEls = 2 Emit = TRUE
VIEW View
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
