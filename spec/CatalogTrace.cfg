SPECIFICATION Spec
INVARIANT Ok
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
