SPECIFICATION Spec
CONSTANTS K = 7 Focus = "strain"
INVARIANT Emit
CHECK_DEADLOCK FALSE
