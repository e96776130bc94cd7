SPECIFICATION MSpec
CONSTANTS
  Base = 16
  NLimbs = 1
  LimbBits = 4
  Threads = {1, 2}
  Ids = {1, 2, 3}
  MaxOps = @MAX@
  Mode = "ok"
  Kinds = {"counter", "ahist"}
INVARIANT Inv
CHECK_DEADLOCK FALSE
