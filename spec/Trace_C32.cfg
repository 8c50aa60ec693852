SPECIFICATION Spec
VIEW View
INVARIANT C32
CHECK_DEADLOCK FALSE
