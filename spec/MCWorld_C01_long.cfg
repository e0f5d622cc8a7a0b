SPECIFICATION Spec
CONSTANTS
  K = 8
  Profile = "C01"
INVARIANTS Emit
CHECK_DEADLOCK FALSE
