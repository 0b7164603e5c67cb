SPECIFICATION Spec
CONSTANTS
  MaxRows = 4
  MaxOps = 2
  MaxIter = 2
  Vals <- ValsDef
  Outs = {0, 1}
  MaxT = 1
  Ivs = {1, 2}
  Signs <- SgnBoth
  Y0s <- Y0b
CONSTRAINT Bound
INVARIANTS TypeOK HistoryFaithful IterBudget NoRunWithoutLimit NoStuck Scheduled OptimumOK
PROPERTIES AppendOnly StartedInTime SugPure
CHECK_DEADLOCK FALSE
