SPECIFICATION Spec
CONSTANTS
  LastWins = FALSE
  MaxLen = @MAXLEN@
INVARIANTS Grammar Fold Says
CHECK_DEADLOCK FALSE
