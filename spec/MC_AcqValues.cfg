SPECIFICATION Spec
CONSTANTS
  MaxS = 4
  MaxK = 20
INVARIANTS DMean DDev Linear Homog Ranges Averages Limit
CHECK_DEADLOCK FALSE
