SPECIFICATION Spec
CONSTANTS
  SInit <- MInit
  CanPoll <- MCanPoll
  Answer <- MAnswer
  Called <- MCalled
  PendOK <- MPendOK
  Extra <- MExtra
  Sticky <- MSticky
  Ret <- MRet
  Ops <- PeekOps
  Cfgs <- AllCfgs
  Env <- MEnv
  Kinds = {"zip", "chain", "take_until", "ready_chunks", "tready_chunks", "peek", "cycle", "poll_imm", "unfold", "tunfold", "flatten", "flat_map", "tflatten", "fstream", "tfstream", "select", "select_all", "select_any", "strategy", "funo", "fmuno", "tfuno", "buffered", "tbuffered", "bufun", "tbufun", "fec", "tfec", "ordered", "unordered", "sall"}
  MaxLog = 6
INVARIANTS MAble Sound InOrder Complete EndRight Bound Lazy Threads Peeks
CHECK_DEADLOCK FALSE
