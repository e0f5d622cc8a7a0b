SPECIFICATION Spec
CONSTANTS
  Part = "splits"
  Size = 15
INVARIANT Ok
CHECK_DEADLOCK FALSE
