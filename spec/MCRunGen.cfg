SPECIFICATION Spec
CONSTANTS MN = 2 MX = 5 Targets = {1, 3, 7, 11} Replies <- RepliesDef Emit = TRUE
VIEW View

PROPERTY Emitted
CHECK_DEADLOCK FALSE
