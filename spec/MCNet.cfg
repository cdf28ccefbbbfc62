SPECIFICATION Spec
INVARIANT NetConforms
INVARIANT OrderConforms
INVARIANT FlatConforms
INVARIANT Emitted
INVARIANT WordsOut
CHECK_DEADLOCK FALSE
