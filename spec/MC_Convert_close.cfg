SPECIFICATION Live
CONSTANTS
  MaxItems = 2
  MaxFaults = 2
  Mode = "close"
INVARIANT Inv
PROPERTY Ends
CHECK_DEADLOCK FALSE
