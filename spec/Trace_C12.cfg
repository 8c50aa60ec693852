SPECIFICATION Spec
VIEW View
INVARIANTS C12 C12playouts
CHECK_DEADLOCK FALSE
