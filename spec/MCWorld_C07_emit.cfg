SPECIFICATION Spec
CONSTANTS
  K = 2
  Profile = "C07"
INVARIANTS Emit
CHECK_DEADLOCK FALSE
