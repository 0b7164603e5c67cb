SPECIFICATION Spec
CONSTANTS
  PerRun = 100
INVARIANT Emit
CHECK_DEADLOCK FALSE
