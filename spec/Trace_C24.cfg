SPECIFICATION Spec
INVARIANTS C24game C24all
CHECK_DEADLOCK FALSE
VIEW V
