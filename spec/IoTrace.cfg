SPECIFICATION TSpec
CONSTANTS
  SInit <- IoInit
  CanPoll <- IoCanPoll
  Answer <- IoAnswer
  Called <- IoCalled
  PendOK <- IoPendOK
  Extra <- IoExtra
  Sticky <- IoSticky
  Ret <- IoRet
CONSTRAINT Progress
CHECK_DEADLOCK FALSE
