SPECIFICATION Spec
CONSTANTS
  Part = "hull"
  Deep = FALSE
INVARIANT Ok
CHECK_DEADLOCK FALSE
