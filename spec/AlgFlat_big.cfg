SPECIFICATION Spec
CONSTANTS
  NB = 2
  NI = 1
  Limit = 0
  Errs = {}
  Panics = 0
  Spurious = 0
  defaultInitValue = "none"
INVARIANTS TypeOK Held Excl
