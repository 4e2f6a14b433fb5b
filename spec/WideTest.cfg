SPECIFICATION Spec
INVARIANT Right
VIEW View
CHECK_DEADLOCK FALSE
