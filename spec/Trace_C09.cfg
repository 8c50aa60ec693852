SPECIFICATION Spec
VIEW View
INVARIANT C09
CHECK_DEADLOCK FALSE
