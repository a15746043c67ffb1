SPECIFICATION Spec
VIEW View
INVARIANT Report
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
