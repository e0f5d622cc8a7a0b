SPECIFICATION Spec
CONSTANTS K = 2 Focus = "strain"
INVARIANTS Emit Affine InTurn
PROPERTIES Carried Blind Alone Orthogonal
CHECK_DEADLOCK FALSE
