SPECIFICATION Spec
CONSTANTS Vals = {0, 6, 18} Steps = {1, 3} Life = 3 Delays = {0, 1, 2, 3} Depth = 4 KeepOne = TRUE
INVARIANTS ForgettingInvisible
PROPERTIES MemoryIsLast DelayIsCurve DerivIsQuotient InitialIsFirst
CHECK_DEADLOCK FALSE
