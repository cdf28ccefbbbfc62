SPECIFICATION Spec
INVARIANT Described
INVARIANT Agree
INVARIANT NoRepair
CHECK_DEADLOCK FALSE
