SPECIFICATION Spec
CONSTANTS
  Part = "hull"
  Deep = TRUE
INVARIANT Ok
CHECK_DEADLOCK FALSE
