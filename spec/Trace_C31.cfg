SPECIFICATION Spec
VIEW View
INVARIANT C31
CHECK_DEADLOCK FALSE
