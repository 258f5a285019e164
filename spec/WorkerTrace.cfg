SPECIFICATION Spec
INVARIANT Holds
VIEW View
CHECK_DEADLOCK FALSE
