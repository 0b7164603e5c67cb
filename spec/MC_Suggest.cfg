SPECIFICATION Spec
CONSTANTS
  Confs <- Conf2
  MaxReq = 2
INVARIANTS AllLegalRows NoRepeat GhostAgrees NoDeadEnd NothingSticks
PROPERTIES RespOK ExploredOK
CHECK_DEADLOCK FALSE
