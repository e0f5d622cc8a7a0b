SPECIFICATION Spec
CONSTANT K = 3
INVARIANTS Emit Anchored Distinct
PROPERTIES LeavesTheRest KeepsOrder KeepsOrigin Carried
CHECK_DEADLOCK FALSE
