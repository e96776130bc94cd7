SPECIFICATION MSpec
CONSTANTS
  Order <- V1First
  Values = {"x", "y"}
  MaxLen = 1
INVARIANT Inv
CHECK_DEADLOCK FALSE
