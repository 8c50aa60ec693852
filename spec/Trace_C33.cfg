SPECIFICATION Spec
VIEW View
INVARIANT C33
CHECK_DEADLOCK FALSE
