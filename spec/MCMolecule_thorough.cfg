SPECIFICATION Spec
CONSTANT N = 8
INVARIANTS Follows FixedIsFixed OrderKept
CHECK_DEADLOCK FALSE
