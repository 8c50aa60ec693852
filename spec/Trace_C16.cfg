SPECIFICATION Spec
VIEW View
INVARIANTS C16 C16noise
CHECK_DEADLOCK FALSE
