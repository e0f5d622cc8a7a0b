SPECIFICATION Spec
CONSTANTS
  L = 14
  NMax = 4
  MinSeps = {1,2,3,4}
  Kind = "fcc"
INVARIANTS ClosePacked FccFaults WzFaults BondsIntact ScanFinds ScanRefuses
CHECK_DEADLOCK FALSE
