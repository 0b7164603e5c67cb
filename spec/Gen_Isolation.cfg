SPECIFICATION Spec
CONSTANTS
  PerRun = 100
  MaxOps = 9
INVARIANT Emit
CHECK_DEADLOCK FALSE
