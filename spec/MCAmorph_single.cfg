SPECIFICATION Spec
CONSTANTS
  Mode = "single"
  MaxX = 6
  MaxZ = 4
  MaxM = 3
  MaxN = 3
  Batch = 1
INVARIANTS Apart AtMost InBlocks Held Exact Sound
CHECK_DEADLOCK FALSE
