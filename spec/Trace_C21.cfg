SPECIFICATION Spec
INVARIANTS C21
CHECK_DEADLOCK FALSE
VIEW V
