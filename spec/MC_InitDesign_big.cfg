SPECIFICATION Spec
CONSTANTS
  NMax = 7
INVARIANTS Latin Sobol Grid
CHECK_DEADLOCK FALSE
