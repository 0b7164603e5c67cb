SPECIFICATION Spec
CONSTANTS
  MaxVars = 3
  MaxBands = 2
INVARIANTS RawOK EncOK IndexOK
CHECK_DEADLOCK FALSE
