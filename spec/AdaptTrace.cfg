SPECIFICATION TSpec
CONSTANTS
  SInit <- AInit
  CanPoll <- ACanPoll
  Answer <- AAnswer
  Called <- ACalled
  PendOK <- APendOK
  Extra <- NoExtra
  Sticky <- ASticky
  Ret <- RetQ
CONSTRAINT Progress
CHECK_DEADLOCK FALSE
