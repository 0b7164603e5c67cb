SPECIFICATION Spec
CONSTANTS
  NMax = 2
  PMax = 2
  MaxFaults = 2
  JoinFirst = FALSE
  NoEOF = TRUE
INVARIANTS Right RaisedOnlyIfError Once AtMostOnceInWorkers NoLeak Observed
PROPERTIES Ends
CHECK_DEADLOCK FALSE
