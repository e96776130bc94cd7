SPECIFICATION TSpec
CONSTANTS
  Base = 65536
  NLimbs = 4
  LimbBits = 16
  Threads = {1, 2, 3, 4, 5, 6, 7, 8}
  Ids = @IDS@
CONSTRAINT Furthest
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
