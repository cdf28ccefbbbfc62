SPECIFICATION Spec
VIEW View
INVARIANT Within
INVARIANT Aligned
CHECK_DEADLOCK FALSE
