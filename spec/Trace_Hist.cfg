SPECIFICATION TSpec
CONSTANTS
  Base = 65536
  LimbBits = 16
  NLimbs = 4
  Threads = {1, 2, 3, 4, 5, 6, 7, 8}
CONSTRAINT Furthest
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
