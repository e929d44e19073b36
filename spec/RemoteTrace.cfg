SPECIFICATION TSpec
CONSTANTS
  InitSt <- RInit
  Apply <- RApply
  Observe <- RObserve
  StInv <- RInv
CONSTRAINT Progress
CHECK_DEADLOCK FALSE
