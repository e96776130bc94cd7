SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  MaxOps = 4
  NB = 2
  Variant = "race"
INVARIANTS LoadsAllowed Exact

CHECK_DEADLOCK FALSE
