SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Ids = {1, 2}
  Names = {"a", "b"}
  MaxViews = 2
  MaxOps = @MAXOPS@
INVARIANTS Complete NoGhosts OnlyRegistered Frozen
PROPERTIES FreezeStep NoReturnUnderView Completes
CHECK_DEADLOCK FALSE
