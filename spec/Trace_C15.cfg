SPECIFICATION Spec
VIEW View
INVARIANT C15
CHECK_DEADLOCK FALSE
