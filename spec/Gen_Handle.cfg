SPECIFICATION GSpec
CONSTANTS
  Depth = @DEPTH@
  MaxIds = @MAXIDS@
  Types = {"counter", "gauge", "lazyc", "lazyg", "ahist", "rwhist", "probe"}
  Places = {"boxed", "ctx", "pinned", "outer", "spread"}
CHECK_DEADLOCK FALSE
