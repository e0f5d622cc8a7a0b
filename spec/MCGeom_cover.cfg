SPECIFICATION Spec
CONSTANTS
  Part = "cover"
  Deep = FALSE
INVARIANT Ok
CHECK_DEADLOCK FALSE
