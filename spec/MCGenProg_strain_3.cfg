SPECIFICATION Spec
CONSTANTS K = 3 Focus = "strain"
INVARIANTS Emit Affine InTurn
PROPERTIES Carried Blind Alone Orthogonal
CHECK_DEADLOCK FALSE
