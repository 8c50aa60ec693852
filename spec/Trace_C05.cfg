SPECIFICATION Spec
INVARIANTS C05
CHECK_DEADLOCK FALSE
