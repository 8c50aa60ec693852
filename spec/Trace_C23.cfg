SPECIFICATION Spec
INVARIANTS BestOK
CHECK_DEADLOCK FALSE
