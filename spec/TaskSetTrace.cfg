SPECIFICATION TSpec
CONSTANTS
  InitSt <- TInitSt
  Apply <- TApply
  Observe <- TObserve
  StInv <- TInv
CONSTRAINT Progress
CHECK_DEADLOCK FALSE
