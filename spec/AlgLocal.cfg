SPECIFICATION Spec
CONSTANTS
  Wakers = {1, 2, 3}
  Nested = 2
  Strangers = {11, 12}
  Spurious = 1
INVARIANTS TypeOK
