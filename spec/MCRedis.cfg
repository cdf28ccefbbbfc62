SPECIFICATION Spec
VIEW View
INVARIANT Ordered
PROPERTY RefusedChangesNothing
PROPERTY Kept
CHECK_DEADLOCK FALSE
