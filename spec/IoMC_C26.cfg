SPECIFICATION Spec
CONSTANTS
  SInit <- IoInit
  CanPoll <- IoCanPoll
  Answer <- IoAnswer
  Called <- IoCalled
  PendOK <- IoPendOK
  Extra <- IoExtra
  Sticky <- IoSticky
  Ret <- IoRet
  Ops <- IoOps
  Cfgs <- MCfgs
  Env <- IoEnv
  Kinds = {"idw", "bufwriter", "linewriter", "intosink", "f_write", "f_wall", "copy", "copybuf"}
  MaxLog = 5
INVARIANTS IAble InOrder Held Limited EndTrue Fits ChainOrder OutOrder Through Room Progresses NothingAfterClose Errors Whole CopyOrder Lined
CHECK_DEADLOCK FALSE
