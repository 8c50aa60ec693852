SPECIFICATION Spec
INVARIANTS C27
CHECK_DEADLOCK FALSE
VIEW V
