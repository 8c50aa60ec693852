SPECIFICATION Spec
INVARIANTS C26replay
CHECK_DEADLOCK FALSE
VIEW V
