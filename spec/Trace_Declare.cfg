SPECIFICATION TSpec
CONSTANTS
  LastWins = FALSE
CONSTRAINT Furthest
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
