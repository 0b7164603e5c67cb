SPECIFICATION Spec
CONSTANTS
  Focus = "C10"
  PerRun = 50
INVARIANT Emit
CHECK_DEADLOCK FALSE
