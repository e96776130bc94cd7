SPECIFICATION GSpec
CONSTANTS
  Threads = @THREADS@
  Depth = @DEPTH@
  MaxIds = @MAXIDS@
  Names = {"a", "b", ""}
  Kinds = @KINDS@
  Places = {"boxed", "near", "far"}
  PanicPoints = @PANICS@
CHECK_DEADLOCK FALSE
