SPECIFICATION Spec
CONSTANTS K = 3
INVARIANTS Emit
PROPERTIES Alone Kept Renewed Still Unlocked Together
CHECK_DEADLOCK FALSE
