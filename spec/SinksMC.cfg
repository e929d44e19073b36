SPECIFICATION Spec
CONSTANTS
  SInit <- KInit
  CanPoll <- KCanPoll
  Answer <- KAnswer
  Called <- KCalled
  PendOK <- KPendOK
  Extra <- KExtra
  Sticky <- KSticky
  Ret <- KRet
  Ops <- KOps
  Cfgs <- AllCfgs
  Env <- KEnv
  Kinds = {"buffer", "map_err", "with", "wfm", "flatten", "unfold", "drain", "id", "feed", "send", "flush", "close", "send_all", "forward"}
  MaxLog = 7
INVARIANTS KAble Arrived Slots NoLate Whole Truth Bounded Errors Threads
CHECK_DEADLOCK FALSE
