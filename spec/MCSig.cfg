SPECIFICATION Spec
CONSTANTS Handles = {1, 2, 3} MaxObj = 3 Types = {"s", "a"} Vals = {"1", "2"} Emit = FALSE MaxLen = 6
VIEW View
INVARIANTS HandlesTyped EveryOp AliasesAgree
CHECK_DEADLOCK FALSE
