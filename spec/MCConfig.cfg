SPECIFICATION Spec
INVARIANT Described
INVARIANT DefaultsAreMeant
INVARIANT ValidIsCreated
CHECK_DEADLOCK FALSE
