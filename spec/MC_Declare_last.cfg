SPECIFICATION Spec
CONSTANTS
  LastWins = TRUE
  MaxLen = @MAXLEN@
INVARIANTS Grammar Fold Says
CHECK_DEADLOCK FALSE
