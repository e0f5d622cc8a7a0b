SPECIFICATION Spec
CONSTANTS
  Mode = "batch"
  MaxX = 4
  MaxZ = 4
  MaxM = 2
  MaxN = 3
  Batch = 2
INVARIANTS Apart AtMost InBlocks Held Exact Sound
CHECK_DEADLOCK FALSE
