SPECIFICATION Spec
CONSTANTS
  K = 8
  Profile = "C02"
INVARIANTS Emit
CHECK_DEADLOCK FALSE
