SPECIFICATION GSpec
CONSTANTS
  MaxLen = @MAX@
  Counts = @COUNTS@
CHECK_DEADLOCK FALSE
