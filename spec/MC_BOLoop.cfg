SPECIFICATION Spec
CONSTANTS
  MaxRows = 3
  MaxOps = 2
  MaxIter = 1
  Vals <- ValsDef
  Outs = {0, 1}
  MaxT = 1
  Ivs = {2}
  Signs <- SgnMax
  Y0s <- Y0a
CONSTRAINT Bound
INVARIANTS TypeOK HistoryFaithful IterBudget NoRunWithoutLimit NoStuck Scheduled OptimumOK
PROPERTIES AppendOnly StartedInTime SugPure
CHECK_DEADLOCK FALSE
