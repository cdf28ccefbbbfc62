SPECIFICATION Spec
VIEW View
PROPERTY OnlyThat
CHECK_DEADLOCK FALSE
