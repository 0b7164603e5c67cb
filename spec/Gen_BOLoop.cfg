SPECIFICATION GSpec
CONSTANTS
  MaxRows = 12
  MaxOps = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
