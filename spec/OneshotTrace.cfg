SPECIFICATION TSpec
CONSTANTS
  InitSt <- OInit
  Apply <- OApply
  Observe <- OObserve
  StInv <- OInv
CONSTRAINT Progress
CHECK_DEADLOCK FALSE
