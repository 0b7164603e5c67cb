SPECIFICATION Spec
CONSTANTS
  Variant = "none"
  MaxOps = 6
INVARIANTS Accepted Undisturbed
CHECK_DEADLOCK FALSE
