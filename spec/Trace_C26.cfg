SPECIFICATION Spec
INVARIANTS C26 C26match C26cli
CHECK_DEADLOCK FALSE
VIEW V
