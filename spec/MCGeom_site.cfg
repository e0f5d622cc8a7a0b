SPECIFICATION Spec
CONSTANTS
  Part = "site"
  Deep = FALSE
INVARIANT Ok
CHECK_DEADLOCK FALSE
