SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  MaxOps = 4
  Variant = "nolock"
  Zero0 = 0
INVARIANTS Whole Same
CHECK_DEADLOCK FALSE
