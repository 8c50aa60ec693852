SPECIFICATION Spec
VIEW View
INVARIANT C10
CHECK_DEADLOCK FALSE
