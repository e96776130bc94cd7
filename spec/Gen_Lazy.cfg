SPECIFICATION GSpec
CONSTANTS
  Threads = @THREADS@
  Depth = @DEPTH@
  Ops = @OPS@
CHECK_DEADLOCK FALSE
