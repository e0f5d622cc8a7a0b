SPECIFICATION Spec
CONSTANTS
  Part = "voxels"
  Size = 6
INVARIANT Ok
CHECK_DEADLOCK FALSE
