SPECIFICATION Spec
CONSTANTS K = 9
INVARIANTS Emit
CHECK_DEADLOCK FALSE
