SPECIFICATION Spec
CONSTANTS
  L = 9
  NMax = 3
  MinSeps = {1,2,3}
  Kind = "fcc"
INVARIANTS ClosePacked FccFaults WzFaults BondsIntact ScanFinds ScanRefuses
CHECK_DEADLOCK FALSE
