SPECIFICATION Spec
CONSTANT K = 8
INVARIANT Emit
CHECK_DEADLOCK FALSE
