SPECIFICATION Spec
CONSTANTS
  K = 2
  Profile = "C08"
INVARIANTS Emit
CHECK_DEADLOCK FALSE
