SPECIFICATION Live
CONSTANTS
  MaxItems = 2
  MaxFaults = 2
  Mode = "stay"
INVARIANT Inv
PROPERTY Ends
CHECK_DEADLOCK FALSE
