SPECIFICATION Spec
CONSTANTS Procs = {"p1", "p2"} UseLocks = TRUE
INVARIANTS LimitsHold Mutex
PROPERTY Terminates
