SPECIFICATION Spec
CONSTANTS
  K = 8
  Profile = "C08"
INVARIANTS Emit
CHECK_DEADLOCK FALSE
