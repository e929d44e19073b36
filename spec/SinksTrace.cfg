SPECIFICATION TSpec
CONSTANTS
  SInit <- KInit
  CanPoll <- KCanPoll
  Answer <- KAnswer
  Called <- KCalled
  PendOK <- KPendOK
  Extra <- KExtra
  Sticky <- KSticky
  Ret <- KRet
CONSTRAINT Progress
CHECK_DEADLOCK FALSE
