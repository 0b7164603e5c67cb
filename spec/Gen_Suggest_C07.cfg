SPECIFICATION Spec
CONSTANTS
  Focus = "C07"
  PerRun = 50
INVARIANT Emit
CHECK_DEADLOCK FALSE
