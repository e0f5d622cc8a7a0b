SPECIFICATION Spec
CONSTANTS
  K = 2
  Profile = "C01"
INVARIANTS Emit
CHECK_DEADLOCK FALSE
