SPECIFICATION Spec
CONSTANTS
  SInit <- FInit
  CanPoll <- FCanPoll
  Answer <- FAnswer
  Called <- FCalled
  PendOK <- FPendOK
  Extra <- FExtra
  Sticky <- FSticky
  Ret <- FRet
  Ops <- OneOp
  Cfgs <- AllCfgs
  Env <- FEnv
  MaxLog = 8
INVARIANTS Able Sound Complete Seen SelOk SelList SelMac Polled Watched
CHECK_DEADLOCK FALSE
