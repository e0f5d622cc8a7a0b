SPECIFICATION Spec
CONSTANT K = 2
INVARIANTS Emit Anchored Distinct
PROPERTIES LeavesTheRest KeepsOrder KeepsOrigin Carried
CHECK_DEADLOCK FALSE
