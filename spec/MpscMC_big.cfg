SPECIFICATION Spec
CONSTANTS
  S = 3
  M = 2
  B = 1
INVARIANT Inv
CHECK_DEADLOCK FALSE
