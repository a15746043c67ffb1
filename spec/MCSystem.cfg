SPECIFICATION Spec
CONSTANTS MN = 1 MX = 3 Targets = {2, 4} Replies = {0, 1, 2, 4} Vals = {0, 1} MaxOps = 3 MaxTries = 2
INVARIANTS IntegratorContinues RetrySame RunEndsAtTarget Fresh
PROPERTIES MemoryRemembers InitialCondition TriggerRestarts InitContinues InitialValueHolds OnlyAcceptedCommit StepsContiguous ForcedAccept RejectKeepsTime TimeForward
CHECK_DEADLOCK FALSE
