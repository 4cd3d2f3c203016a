SPECIFICATION Spec
INVARIANT Ok
CONSTRAINT Note
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
