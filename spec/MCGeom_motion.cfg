SPECIFICATION Spec
CONSTANTS
  Part = "motion"
  Deep = FALSE
INVARIANT Ok
CHECK_DEADLOCK FALSE
