SPECIFICATION Spec
CONSTANTS
  K = 2
  Profile = "C01"
INVARIANTS Emit PrecedenceIsComputed FirstKeepsAll AtomsInside
PROPERTIES CarriesAlong LeavesTheRest
CHECK_DEADLOCK FALSE
