SPECIFICATION Spec
CONSTANTS
  Workers = {101, 102}
  Wakers = {1, 2}
  Spurious = 1
INVARIANTS Alone OneCopy Final
