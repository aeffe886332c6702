SPECIFICATION Spec
CONSTRAINT Track
INVARIANT Consistent
POSTCONDITION Verdict
CHECK_DEADLOCK FALSE
