SPECIFICATION Spec
CONSTANTS NoSession = "" NoId = ""
CONSTRAINT Track
INVARIANT TypeOK
POSTCONDITION Verdict
CHECK_DEADLOCK FALSE
