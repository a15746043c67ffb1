SPECIFICATION Spec
CONSTANTS MaxBlk = 3 MaxLen = 5 Emit = TRUE
VIEW View
INVARIANTS AllLegal Paths Idempotent
CHECK_DEADLOCK FALSE
