SPECIFICATION Spec
VIEW View
INVARIANT C13
CHECK_DEADLOCK FALSE
