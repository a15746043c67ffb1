SPECIFICATION Spec
CONSTANTS MaxSig = 2 Emit = TRUE
VIEW View
INVARIANTS CountsMatch
CHECK_DEADLOCK FALSE
