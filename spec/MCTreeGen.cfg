SPECIFICATION Spec
CONSTANTS MaxBlk = 4 Emit = TRUE
VIEW View
INVARIANTS Acyclic
CHECK_DEADLOCK FALSE
