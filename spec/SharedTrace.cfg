SPECIFICATION TSpec
CONSTANTS
  InitSt <- HInit
  Apply <- HApply
  Observe <- HObserve
  StInv <- HInv
CONSTRAINT Progress
CHECK_DEADLOCK FALSE
