SPECIFICATION Spec
CONSTANTS MaxBlk = 4 Emit = FALSE
VIEW View
INVARIANTS Acyclic Consistent NoDuplicates RefusedChangesNothing AgainChangesNothing VisitsComplete
PROPERTY ParentsStay
CHECK_DEADLOCK FALSE
