SPECIFICATION Spec
CONSTANTS
  K = 2
  Profile = "C06"
INVARIANTS Emit
CHECK_DEADLOCK FALSE
