SPECIFICATION Spec
VIEW View
INVARIANT C29
CHECK_DEADLOCK FALSE
