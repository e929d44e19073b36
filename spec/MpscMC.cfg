SPECIFICATION Spec
CONSTANTS
  S = 2
  M = 2
  B = 0
INVARIANT Inv
CHECK_DEADLOCK FALSE
