SPECIFICATION Spec
CONSTANTS MaxTotal = 2 RIds = {"r1", "r2"} OIds = {"o1", "o2"} Lims <- LimsBig WithSet = TRUE
CONSTRAINT Bound
INVARIANTS Consistent OverridesHold RulesHold NotLimited Blocked
CHECK_DEADLOCK FALSE
