SPECIFICATION Spec
CONSTANTS
  MaxIter = 12
  MaxIv = 8
INVARIANTS Accepted Rejected
CHECK_DEADLOCK FALSE
