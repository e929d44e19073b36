SPECIFICATION Spec
CONSTANTS
  SInit <- MInit
  CanPoll <- MCanPoll
  Answer <- MAnswer
  Called <- MCalled
  PendOK <- MPendOK
  Extra <- MExtra
  Sticky <- MSticky
  Ret <- MRet
  Ops <- PeekOps
  Cfgs <- AllCfgs
  Env <- MEnv
  Kinds = {"buffered", "tbuffered", "ordered"}
  MaxLog = 7
INVARIANTS MAble Sound InOrder Complete EndRight Bound Lazy Threads Peeks
CHECK_DEADLOCK FALSE
