SPECIFICATION Spec
CONSTANTS
  Focus = "C06"
  PerRun = 50
INVARIANT Emit
CHECK_DEADLOCK FALSE
