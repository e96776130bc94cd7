SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Variant = "cached"
INVARIANTS Transparent OneEach
CHECK_DEADLOCK FALSE
