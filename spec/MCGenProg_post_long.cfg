SPECIFICATION Spec
CONSTANTS K = 7 Focus = "post"
INVARIANT Emit
CHECK_DEADLOCK FALSE
