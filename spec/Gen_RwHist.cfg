SPECIFICATION GSpec
CONSTANTS
  Threads = @THREADS@
  Depth = @DEPTH@
  Sizes = @SIZES@
  Shapes = {"const", "ramp", "random", "zero", "max", "short", "long", "empty"}
  Zero0 = "0"
CHECK_DEADLOCK FALSE
