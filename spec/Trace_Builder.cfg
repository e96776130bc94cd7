SPECIFICATION TSpec
CONSTANTS
  Slots = {1, 2, 3, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20}
CONSTRAINT Furthest
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
