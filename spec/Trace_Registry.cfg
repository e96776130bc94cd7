SPECIFICATION TSpec
CONSTANTS
  Threads = {1, 2, 3, 4, 5, 6, 7, 8, 101, 102, 103, 104, 105, 106, 107, 108}
CONSTRAINT Furthest
INVARIANT Frozen
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
