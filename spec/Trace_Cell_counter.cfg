SPECIFICATION TSpec
CONSTANTS
  Base = 65536
  NLimbs = 4
  Threads = {1, 2, 3, 4, 5, 6, 7, 8}
  Kind = "counter"
CONSTRAINT Furthest
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
