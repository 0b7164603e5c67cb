SPECIFICATION Spec
CONSTANTS
  Variant = "good"
  MaxVer = 3
INVARIANTS Current Bounds3 Pair
CHECK_DEADLOCK FALSE
