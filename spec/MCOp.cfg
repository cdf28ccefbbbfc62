SPECIFICATION Spec
INVARIANT Conforms
INVARIANT Emitted
CHECK_DEADLOCK FALSE
