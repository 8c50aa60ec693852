SPECIFICATION Spec
INVARIANTS C04pos C04game C04dice
CHECK_DEADLOCK FALSE
