SPECIFICATION Spec
CONSTANTS K = 7 Focus = "copy"
INVARIANT Emit
CHECK_DEADLOCK FALSE
