SPECIFICATION Spec
CONSTANTS MaxTotal = 2 RIds = {"r1"} OIds = {"o1"} Lims <- LimsQuick WithSet = FALSE
CONSTRAINT Bound
INVARIANTS Consistent OverridesHold RulesHold NotLimited Blocked
CHECK_DEADLOCK FALSE
