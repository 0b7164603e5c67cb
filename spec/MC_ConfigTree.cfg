SPECIFICATION Spec
CONSTANTS
  Variant = "none"
  MaxLoads = 1
INVARIANTS Agrees Whole Replaced Again
PROPERTY DefaultsStay
CHECK_DEADLOCK FALSE
