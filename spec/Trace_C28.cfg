SPECIFICATION Spec
VIEW View
INVARIANT C28
CHECK_DEADLOCK FALSE
