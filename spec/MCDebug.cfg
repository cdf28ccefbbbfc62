SPECIFICATION Spec
INVARIANT Rounded
INVARIANT Ordered
INVARIANT Answered
INVARIANT Started
CHECK_DEADLOCK FALSE
