SPECIFICATION Spec
CONSTANTS
  NMax = 2
  PMax = 2
  MaxFaults = 2
  JoinFirst = TRUE
  NoEOF = FALSE
INVARIANTS Right RaisedOnlyIfError Once AtMostOnceInWorkers NoLeak Observed
PROPERTIES Ends
CHECK_DEADLOCK FALSE
