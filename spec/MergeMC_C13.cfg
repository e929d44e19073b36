SPECIFICATION Spec
CONSTANTS
  SInit <- MInit
  CanPoll <- MCanPoll
  Answer <- MAnswer
  Called <- MCalled
  PendOK <- MPendOK
  Extra <- MExtra
  Sticky <- MSticky
  Ret <- MRet
  Ops <- PeekOps
  Cfgs <- AllCfgs
  Env <- MEnv
  Kinds = {"funo", "fmuno", "tfuno", "buffered", "tbuffered", "bufun", "tbufun", "fec", "tfec"}
  MaxLog = 7
INVARIANTS MAble Sound InOrder Complete EndRight Bound Lazy Threads Peeks
CHECK_DEADLOCK FALSE
