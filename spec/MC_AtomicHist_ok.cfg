SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  MaxOps = @MAXOPS@
  NB = 2
  Variant = "ok"
INVARIANTS LoadsAllowed Exact
PROPERTIES Finishes
CHECK_DEADLOCK FALSE
