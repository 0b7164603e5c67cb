SPECIFICATION Spec
CONSTANTS
  PerRun = 100
  MaxOps = 12
INVARIANT Emit
CHECK_DEADLOCK FALSE
