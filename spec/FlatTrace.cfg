SPECIFICATION TSpec
CONSTANTS
  InitSt <- FInit
  Apply <- FApply
  Observe <- FObserve
  StInv <- FInv
CONSTRAINT Progress
CHECK_DEADLOCK FALSE
