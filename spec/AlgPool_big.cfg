SPECIFICATION Spec
CONSTANTS
  Workers = {101, 102, 103}
  Wakers = {1, 2, 3}
  Spurious = 1
INVARIANTS Alone OneCopy Final
