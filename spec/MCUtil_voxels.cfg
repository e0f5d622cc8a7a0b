SPECIFICATION Spec
CONSTANTS
  Part = "voxels"
  Size = 4
INVARIANT Ok
CHECK_DEADLOCK FALSE
