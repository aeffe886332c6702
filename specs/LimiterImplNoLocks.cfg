SPECIFICATION Spec
CONSTANTS Procs = {"p1", "p2"} UseLocks = FALSE
INVARIANTS LimitsHold
