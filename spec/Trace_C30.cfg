SPECIFICATION Spec
VIEW View
INVARIANT C30
CHECK_DEADLOCK FALSE
