SPECIFICATION Spec
INVARIANTS C22 C22refused
CHECK_DEADLOCK FALSE
VIEW V
