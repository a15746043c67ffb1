SPECIFICATION Spec
CONSTANTS Depth = 9
INVARIANTS Balanced EmptyOutside ReportGood
CHECK_DEADLOCK FALSE
