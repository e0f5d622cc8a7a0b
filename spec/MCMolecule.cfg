SPECIFICATION Spec
CONSTANT N = 5
INVARIANTS Follows FixedIsFixed OrderKept
CHECK_DEADLOCK FALSE
