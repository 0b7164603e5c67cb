SPECIFICATION Spec
CONSTANTS
  Confs <- AllConfs
  MaxReq = 4
INVARIANTS AllLegalRows NoRepeat GhostAgrees NoDeadEnd NothingSticks
PROPERTIES RespOK ExploredOK
CHECK_DEADLOCK FALSE
