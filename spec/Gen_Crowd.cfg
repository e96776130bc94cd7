SPECIFICATION GSpec
CONSTANTS
  Top = @MAX@
  Depth = @DEPTH@
CHECK_DEADLOCK FALSE
