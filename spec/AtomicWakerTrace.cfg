SPECIFICATION TSpec
CONSTANTS
  InitSt <- AInit
  Apply <- AApply
  Observe <- AObserve
  StInv <- AInv
CONSTRAINT Progress
CHECK_DEADLOCK FALSE
