SPECIFICATION Spec
VIEW View
INVARIANT LivesFromCreateToDelete
INVARIANT PendingOnlyOfTheLiving
PROPERTY Isolated
PROPERTY RefusedChangesNothing
CHECK_DEADLOCK FALSE
