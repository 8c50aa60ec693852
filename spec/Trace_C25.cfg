SPECIFICATION Spec
INVARIANTS C25ok C25game
CHECK_DEADLOCK FALSE
VIEW V
