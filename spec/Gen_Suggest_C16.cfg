SPECIFICATION Spec
CONSTANTS
  Focus = "C16"
  PerRun = 50
INVARIANT Emit
CHECK_DEADLOCK FALSE
