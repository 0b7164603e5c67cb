SPECIFICATION Spec
CONSTANTS
  NMax = 4
  PMax = 3
  MaxFaults = 2
  JoinFirst = FALSE
  NoEOF = FALSE
INVARIANTS Right RaisedOnlyIfError Once AtMostOnceInWorkers NoLeak Observed
PROPERTIES Ends
CHECK_DEADLOCK FALSE
