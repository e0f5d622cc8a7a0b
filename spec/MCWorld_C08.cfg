SPECIFICATION Spec
CONSTANTS
  K = 2
  Profile = "C08"
INVARIANTS Emit PrecedenceIsComputed FirstKeepsAll AtomsInside
PROPERTIES CarriesAlong LeavesTheRest
CHECK_DEADLOCK FALSE
