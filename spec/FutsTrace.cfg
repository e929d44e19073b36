SPECIFICATION TSpec
CONSTANTS
  SInit <- FInit
  CanPoll <- FCanPoll
  Answer <- FAnswer
  Called <- FCalled
  PendOK <- FPendOK
  Extra <- FExtra
  Sticky <- FSticky
  Ret <- FRet
CONSTRAINT Progress
CHECK_DEADLOCK FALSE
