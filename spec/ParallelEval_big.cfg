SPECIFICATION Spec
CONSTANTS
  NMax = 6
  PMax = 4
  MaxFaults = 2
  JoinFirst = FALSE
  NoEOF = FALSE
INVARIANTS Right RaisedOnlyIfError Once AtMostOnceInWorkers NoLeak Observed
PROPERTIES Ends
CHECK_DEADLOCK FALSE
