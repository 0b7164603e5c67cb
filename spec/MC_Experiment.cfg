SPECIFICATION Spec
CONSTANTS
  MaxRows = 8
  Broken = "none"
INVARIANTS Promise Bounded NothingRuns
CHECK_DEADLOCK FALSE
