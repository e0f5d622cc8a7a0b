SPECIFICATION Spec
CONSTANTS
  K = 8
  Profile = "C07"
INVARIANTS Emit
CHECK_DEADLOCK FALSE
