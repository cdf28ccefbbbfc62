SPECIFICATION Spec
VIEW View
INVARIANT OneOrigin
INVARIANT OnlyReached
PROPERTY RefusedChangesNothing
PROPERTY ConnectionKeeps
CHECK_DEADLOCK FALSE
