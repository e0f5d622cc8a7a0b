SPECIFICATION Spec
CONSTANTS
  Part = "site"
  Deep = TRUE
INVARIANT Ok
CHECK_DEADLOCK FALSE
