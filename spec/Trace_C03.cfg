SPECIFICATION Spec
INVARIANTS C03pos C03game
CHECK_DEADLOCK FALSE
