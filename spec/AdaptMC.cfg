SPECIFICATION Spec
CONSTANTS
  SInit <- AInit
  CanPoll <- ACanPoll
  Answer <- AAnswer
  Called <- ACalled
  PendOK <- APendOK
  Extra <- NoExtra
  Sticky <- ASticky
  Ret <- RetQ
  Ops <- OneOp
  Cfgs <- AllCfgs
  Env <- AEnv
  MaxLog = 13
INVARIANTS Able Sound Complete EndRight Lazy Seen
CHECK_DEADLOCK FALSE
