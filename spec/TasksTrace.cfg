SPECIFICATION TSpec
CONSTANTS
  SInit <- KInit
  CanPoll <- KNo
  Answer <- KNone
  Called <- KNone
  PendOK <- KFalse
  Extra <- KExtra
  Sticky <- KEmpty
  Ret <- KRet
CONSTRAINT Progress
CHECK_DEADLOCK FALSE
