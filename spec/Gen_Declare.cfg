SPECIFICATION GSpec
CONSTANTS
  LastWins = FALSE
  MaxArgs = @ARGS@
  MaxKeys = @KEYS@
  Edits = @EDITS@
  Ats = @ATS@
  Lits = @LITS@
  Keys = @KNAMES@
CHECK_DEADLOCK FALSE
