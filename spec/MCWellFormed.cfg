SPECIFICATION Spec
INVARIANT Decided
INVARIANT BaseIsSound
CHECK_DEADLOCK FALSE
