SPECIFICATION TSpec
CONSTANTS
  InitSt <- MInit
  Apply <- MApply
  Observe <- MObserve
  StInv <- MInv
CONSTRAINT Progress
CHECK_DEADLOCK FALSE
