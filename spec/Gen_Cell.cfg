SPECIFICATION GSpec
CONSTANTS
  Base = 65536
  NLimbs = 4
  Threads = @THREADS@
  Kind = "@KIND@"
  Depth = @DEPTH@
CHECK_DEADLOCK FALSE
