SPECIFICATION Spec
CONSTANTS
  Top = 6
  Variant = "off"
INVARIANTS Same Normal Counted Possible
CHECK_DEADLOCK FALSE
