SPECIFICATION BadSpec2
CONSTANTS
  Threads = {1, 2}
  Ids = {1, 2}
  Names = {"a"}
  MaxViews = 2
  MaxOps = 4
INVARIANTS NoGhosts Frozen
CHECK_DEADLOCK FALSE
