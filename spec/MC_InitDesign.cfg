SPECIFICATION Spec
CONSTANTS
  NMax = 5
INVARIANTS Latin Sobol Grid
CHECK_DEADLOCK FALSE
