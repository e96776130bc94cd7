SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  MaxOps = @MAXOPS@
  Variant = "ok"
  Zero0 = 0
INVARIANTS Whole Same
PROPERTIES Finishes
CHECK_DEADLOCK FALSE
