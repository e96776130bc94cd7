SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  MaxOps = 4
  NB = 2
  Variant = "torn"
INVARIANTS LoadsAllowed Exact

CHECK_DEADLOCK FALSE
