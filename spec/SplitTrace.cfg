SPECIFICATION TSpec
CONSTANTS
  InitSt <- PInit
  Apply <- PApply
  Observe <- PObserve
  StInv <- PInv
CONSTRAINT Progress
CHECK_DEADLOCK FALSE
