SPECIFICATION MSpec
CONSTANTS
  Order <- V2First
  Values = {"x", "y"}
  MaxLen = @MAX@
INVARIANT Inv
CHECK_DEADLOCK FALSE
