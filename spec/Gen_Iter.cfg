SPECIFICATION @SPEC@
CONSTANTS
  Depth = @DEPTH@
  Sizes = @SIZES@
  Skips = @SKIPS@
  Finals = @FINALS@
  Statics = @STATICS@
  DoubleEnded = @DE@
  Peeks = @PEEKS@
CHECK_DEADLOCK FALSE
