SPECIFICATION Spec
INVARIANTS C07
CHECK_DEADLOCK FALSE
