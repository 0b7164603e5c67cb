SPECIFICATION Spec
CONSTANTS
  Focus = "C22"
  PerRun = 50
INVARIANT Emit
CHECK_DEADLOCK FALSE
