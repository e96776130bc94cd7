SPECIFICATION GSpec
CONSTANTS
  Depth = @DEPTH@
  MaxAttached = @ATT@
  Types = @TYPES@
  RefTypes = @REFTYPES@
CHECK_DEADLOCK FALSE
