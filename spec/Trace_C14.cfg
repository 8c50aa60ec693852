SPECIFICATION Spec
VIEW View
INVARIANT C14
CHECK_DEADLOCK FALSE
