SPECIFICATION Spec
CONSTANTS
  K = 2
  Profile = "C07"
INVARIANTS Emit PrecedenceIsComputed FirstKeepsAll AtomsInside
PROPERTIES CarriesAlong LeavesTheRest
CHECK_DEADLOCK FALSE
