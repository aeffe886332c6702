SPECIFICATION Spec
CONSTANTS Procs = {"p1", "p2", "p3"} UseLocks = TRUE
INVARIANTS LimitsHold Mutex
PROPERTY Terminates
