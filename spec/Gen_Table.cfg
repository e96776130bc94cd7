SPECIFICATION GSpec
CONSTANTS
  Aspects = {}
  Snaps = @SNAPS@
  MaxReads = @READS@
  Metrics = @METRICS@
  Batches = @BATCHES@
  Roles = @ROLES@
CHECK_DEADLOCK FALSE
