SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Variant = "stale"
INVARIANTS Transparent OneEach
CHECK_DEADLOCK FALSE
