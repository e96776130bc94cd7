SPECIFICATION GSpec
CONSTANTS
  Base = 65536
  NLimbs = 4
  LimbBits = 16
  Threads = {1}
  Ids = @IDS@
  Depth = @DEPTH@
  Kinds = @KINDS@
  Places = {"boxed", "pinned"}
  StaticKinds <- SK
  Snappers = @SNAP@
CHECK_DEADLOCK FALSE
