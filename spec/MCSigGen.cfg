SPECIFICATION Spec
CONSTANTS Handles = {1, 2} MaxObj = 2 Types = {"s", "i", "b", "a"} Vals = {"1", "0"} Emit = TRUE MaxLen = 5
VIEW View
INVARIANTS HandlesTyped
CHECK_DEADLOCK FALSE
