SPECIFICATION Spec
CONSTANTS
  MaxLen = @MAXLEN@
  MaxSkip = @MAXSKIP@
INVARIANTS Once Window AlternateOnce
PROPERTIES Fused
CHECK_DEADLOCK FALSE
