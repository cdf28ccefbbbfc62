SPECIFICATION Spec
VIEW View
INVARIANT IdsAreUnique
INVARIANT ConnectionsHaveEnds
INVARIANT NoTwins
PROPERTY RefusedChangesNothing
PROPERTY DeletesOnlyThat
CHECK_DEADLOCK FALSE
