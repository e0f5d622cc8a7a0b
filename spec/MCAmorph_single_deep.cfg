SPECIFICATION Spec
CONSTANTS
  Mode = "single"
  MaxX = 7
  MaxZ = 6
  MaxM = 3
  MaxN = 4
  Batch = 1
INVARIANTS Apart AtMost InBlocks Held Exact Sound
CHECK_DEADLOCK FALSE
