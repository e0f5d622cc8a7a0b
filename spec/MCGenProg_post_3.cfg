SPECIFICATION Spec
CONSTANTS K = 3 Focus = "post"
INVARIANTS Emit Affine InTurn
PROPERTIES Carried Blind Alone Orthogonal
CHECK_DEADLOCK FALSE
