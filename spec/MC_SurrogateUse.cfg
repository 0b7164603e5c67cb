SPECIFICATION Spec
CONSTANTS
  Variant = "none"
  MaxOps = 4
INVARIANTS Accepted Fitted
CHECK_DEADLOCK FALSE
