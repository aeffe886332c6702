SPECIFICATION Spec
CONSTRAINT Track
POSTCONDITION Verdict
CHECK_DEADLOCK FALSE
