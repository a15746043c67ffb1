SPECIFICATION Spec
CONSTANTS MaxSig = 2 Emit = FALSE
VIEW View
INVARIANTS CountsMatch NoBusRecorded OncePerSignal RefusedChangesNothing
PROPERTY ConnectedStays
CHECK_DEADLOCK FALSE
