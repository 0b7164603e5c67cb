SPECIFICATION Spec
CONSTANTS
  Width = 3
  Variant = "none"
INVARIANTS Accepted Greedy Clean
CHECK_DEADLOCK FALSE
