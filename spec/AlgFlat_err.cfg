SPECIFICATION Spec
CONSTANTS
  NB = 2
  NI = 1
  Limit = 1
  Errs = {1}
  Panics = 1
  Spurious = 1
  defaultInitValue = "none"
INVARIANTS TypeOK Held Excl
