SPECIFICATION Spec
CONSTANTS
  MaxIter = 5
  MaxIv = 4
INVARIANTS Accepted Rejected
CHECK_DEADLOCK FALSE
