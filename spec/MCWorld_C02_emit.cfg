SPECIFICATION Spec
CONSTANTS
  K = 2
  Profile = "C02"
INVARIANTS Emit
CHECK_DEADLOCK FALSE
