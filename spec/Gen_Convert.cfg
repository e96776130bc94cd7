SPECIFICATION GSpec
CONSTANTS
  Aspects = {}
  Snaps = @SNAPS@
  MaxReads = @READS@
  Metrics = @METRICS@
  Batches = @BATCHES@
  Faults = @FAULTS@
  Apis = @APIS@
CHECK_DEADLOCK FALSE
