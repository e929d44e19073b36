SPECIFICATION TSpec
CONSTANTS
  InitSt <- BInit
  Apply <- BApply
  Observe <- BObserve
  StInv <- BInv
CONSTRAINT Progress
CHECK_DEADLOCK FALSE
