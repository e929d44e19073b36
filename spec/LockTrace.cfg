SPECIFICATION TSpec
CONSTANTS
  InitSt <- LInit
  Apply <- LApply
  Observe <- LObserve
  StInv <- LInv
CONSTRAINT Progress
CHECK_DEADLOCK FALSE
