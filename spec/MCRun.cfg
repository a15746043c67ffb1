SPECIFICATION Spec
CONSTANTS MN = 2 MX = 5 Targets = {1, 3, 7, 11} Replies <- RepliesDef Emit = FALSE
INVARIANTS Within Contiguous ShortOnlyAtEnd EndsAtTarget
PROPERTIES ForcedIsAccepted RejectedKeepsStart Terminates
CHECK_DEADLOCK FALSE
