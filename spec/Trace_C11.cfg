SPECIFICATION Spec
VIEW View
INVARIANT C11
CHECK_DEADLOCK FALSE
