SPECIFICATION Spec
CONSTANTS
  NB = 2
  NI = 0
  Limit = 0
  Errs = {}
  Panics = 0
  Spurious = 1
  defaultInitValue = "none"
INVARIANTS TypeOK Held Excl
