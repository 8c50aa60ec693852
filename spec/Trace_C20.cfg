SPECIFICATION Spec
INVARIANTS DataOK ModelsOK
CHECK_DEADLOCK FALSE
