SPECIFICATION Spec
CONSTANTS
  Part = "pairs"
  Size = 10
INVARIANT Ok
CHECK_DEADLOCK FALSE
