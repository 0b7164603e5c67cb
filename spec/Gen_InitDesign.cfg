SPECIFICATION Spec
CONSTANTS
  MaxVars = 4
  PerRun = 100
INVARIANT Emit
CHECK_DEADLOCK FALSE
