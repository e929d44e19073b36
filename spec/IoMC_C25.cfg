SPECIFICATION Spec
CONSTANTS
  SInit <- IoInit
  CanPoll <- IoCanPoll
  Answer <- IoAnswer
  Called <- IoCalled
  PendOK <- IoPendOK
  Extra <- IoExtra
  Sticky <- IoSticky
  Ret <- IoRet
  Ops <- IoOps
  Cfgs <- MCfgs
  Env <- IoEnv
  Kinds = {"id", "bufreader", "take", "takebuf", "chain", "f_read", "f_exact", "f_all", "f_until", "f_line", "lines", "copy", "copybuf"}
  MaxLog = 7
INVARIANTS IAble InOrder Held Limited EndTrue Fits ChainOrder OutOrder Through Room Progresses NothingAfterClose Errors Whole CopyOrder Lined
CHECK_DEADLOCK FALSE
