SPECIFICATION Spec
CONSTANTS
  Base = 8
  LimbBits = 3
  NLimbs = 2
INVARIANTS RangeRight InOrder Narrow
CHECK_DEADLOCK FALSE
