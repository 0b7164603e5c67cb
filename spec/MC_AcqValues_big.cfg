SPECIFICATION Spec
CONSTANTS
  MaxS = 16
  MaxK = 40
INVARIANTS DMean DDev Linear Homog Ranges Averages Limit
CHECK_DEADLOCK FALSE
