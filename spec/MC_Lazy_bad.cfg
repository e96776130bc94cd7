SPECIFICATION BadSpec
CONSTANTS
  Threads = {1, 2}
  MaxOps = 4
INVARIANTS AtMostOnce
CHECK_DEADLOCK FALSE
