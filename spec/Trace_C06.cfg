SPECIFICATION Spec
INVARIANTS C06pos C06game
CHECK_DEADLOCK FALSE
