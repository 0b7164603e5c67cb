SPECIFICATION Spec
CONSTANTS
  Focus = "C08"
  PerRun = 50
INVARIANT Emit
CHECK_DEADLOCK FALSE
