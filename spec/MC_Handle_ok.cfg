SPECIFICATION Spec
CONSTANTS
  MaxOps = @MAXOPS@
  Variant = "ok"
INVARIANTS Transparent OneEach
CHECK_DEADLOCK FALSE
