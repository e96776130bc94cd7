SPECIFICATION BadSpec3
CONSTANTS
  Threads = {1, 2}
  Ids = {1, 2}
  Names = {"a"}
  MaxViews = 2
  MaxOps = 4
PROPERTIES Completes
CHECK_DEADLOCK FALSE
