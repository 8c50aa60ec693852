SPECIFICATION Spec
INVARIANTS C19
CHECK_DEADLOCK FALSE
VIEW V
