SPECIFICATION Spec
CONSTANTS
  Top = 6
  Variant = "ok"
INVARIANTS Same Normal Counted Possible
CHECK_DEADLOCK FALSE
