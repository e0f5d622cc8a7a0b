SPECIFICATION Spec
CONSTANTS K = 2 Focus = "copy"
INVARIANTS Emit Affine InTurn
PROPERTIES Carried Blind Alone Orthogonal
CHECK_DEADLOCK FALSE
