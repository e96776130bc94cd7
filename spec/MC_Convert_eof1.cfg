SPECIFICATION Live
CONSTANTS
  MaxItems = 2
  MaxFaults = 2
  Mode = "eof1"
INVARIANT Inv
PROPERTY Ends
CHECK_DEADLOCK FALSE
