SPECIFICATION Spec
CONSTANTS
  Mode = "batch"
  MaxX = 5
  MaxZ = 4
  MaxM = 2
  MaxN = 4
  Batch = 3
INVARIANTS Apart AtMost InBlocks Held Exact Sound
CHECK_DEADLOCK FALSE
