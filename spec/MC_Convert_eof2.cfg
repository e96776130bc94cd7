SPECIFICATION Live
CONSTANTS
  MaxItems = 2
  MaxFaults = 2
  Mode = "eof2"
INVARIANT Inv
PROPERTY Ends
CHECK_DEADLOCK FALSE
