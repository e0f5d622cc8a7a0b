SPECIFICATION Spec
CONSTANTS
  Part = "pairs"
  Size = 7
INVARIANT Ok
CHECK_DEADLOCK FALSE
