SPECIFICATION Spec
CONSTANTS
  Part = "splits"
  Size = 11
INVARIANT Ok
CHECK_DEADLOCK FALSE
