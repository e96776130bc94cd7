SPECIFICATION SplitSpec
CONSTANTS
  Base = 3
  NLimbs = 1
  Threads = {1, 2}
  Kind = "@KIND@"
  Tallied = TRUE
  Args <- MCArgs
  MaxOps = @MAXOPS@
INVARIANTS OneTrail
CHECK_DEADLOCK FALSE
