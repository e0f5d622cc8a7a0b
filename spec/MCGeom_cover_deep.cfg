SPECIFICATION Spec
CONSTANTS
  Part = "cover"
  Deep = TRUE
INVARIANT Ok
CHECK_DEADLOCK FALSE
