SPECIFICATION Spec
INVARIANTS C01
CHECK_DEADLOCK FALSE
