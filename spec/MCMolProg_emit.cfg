SPECIFICATION Spec
CONSTANT K = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
