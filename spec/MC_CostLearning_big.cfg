SPECIFICATION Spec
CONSTANTS
  MaxEvals = 6
  MaxFits = 5
INVARIANTS Faithful Nothing
CHECK_DEADLOCK FALSE
