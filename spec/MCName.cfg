SPECIFICATION Spec
CONSTANTS MaxBlk = 3 MaxLen = 6 Emit = FALSE
VIEW View
INVARIANTS AllLegal Paths Idempotent
CHECK_DEADLOCK FALSE
