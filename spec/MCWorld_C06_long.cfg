SPECIFICATION Spec
CONSTANTS
  K = 8
  Profile = "C06"
INVARIANTS Emit
CHECK_DEADLOCK FALSE
