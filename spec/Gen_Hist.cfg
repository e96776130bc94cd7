SPECIFICATION GSpec
CONSTANTS
  Base = 65536
  LimbBits = 16
  NLimbs = 4
  Threads = @THREADS@
  Depth = @DEPTH@
  Configs = @CONFIGS@
CHECK_DEADLOCK FALSE
