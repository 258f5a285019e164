SPECIFICATION Spec
INVARIANT Agree
VIEW View
CHECK_DEADLOCK FALSE
