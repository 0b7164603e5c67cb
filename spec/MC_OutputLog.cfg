SPECIFICATION Spec
CONSTANTS
  Variant = "none"
  MaxCalls = 4
INVARIANTS Accepted Totals
CHECK_DEADLOCK FALSE
