SPECIFICATION Spec
INVARIANT Reported
CHECK_DEADLOCK FALSE
