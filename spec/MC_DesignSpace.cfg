SPECIFICATION Spec
CONSTANTS
  MaxVars = 2
  MaxBands = 2
INVARIANTS RawOK EncOK IndexOK
CHECK_DEADLOCK FALSE
