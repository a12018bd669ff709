SPECIFICATION Spec
INVARIANT Conforms
VIEW View
CHECK_DEADLOCK FALSE
