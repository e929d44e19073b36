SPECIFICATION Spec
INVARIANTS Inv NoLimbo
CHECK_DEADLOCK FALSE
