SPECIFICATION Live
CONSTANTS
  MaxItems = @MAX@
  MaxFaults = 2
  Mode = "ok"
INVARIANT Inv
PROPERTY Ends
CHECK_DEADLOCK FALSE
