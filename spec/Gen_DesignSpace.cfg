SPECIFICATION Spec
CONSTANTS
  MaxVars = 5
  MaxBands = 2
  PerRun = 100
INVARIANT Emit
CHECK_DEADLOCK FALSE
