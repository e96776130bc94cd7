SPECIFICATION TSpec
CONSTANTS
  Threads = {1, 2, 3, 4, 5, 6, 7, 8}
CONSTRAINT Furthest
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
