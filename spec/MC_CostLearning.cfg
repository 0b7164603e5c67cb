SPECIFICATION Spec
CONSTANTS
  MaxEvals = 4
  MaxFits = 3
INVARIANTS Faithful Nothing
CHECK_DEADLOCK FALSE
