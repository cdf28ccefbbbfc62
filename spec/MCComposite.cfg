SPECIFICATION Spec
VIEW View
INVARIANT OneInputOneOutput
INVARIANT UniqueIds
PROPERTY RefusedChangesNothing
CHECK_DEADLOCK FALSE
