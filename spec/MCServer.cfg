SPECIFICATION Spec
VIEW View
INVARIANTS InOrder SamplesInOrder
PROPERTIES Apart
CHECK_DEADLOCK FALSE
