SPECIFICATION TornSpec
CONSTANTS
  Base = 3
  NLimbs = 1
  Threads = {1, 2}
  Kind = "@KIND@"
  Tallied = FALSE
  Args <- MCArgs
  MaxOps = 3
INVARIANTS Conservation
CHECK_DEADLOCK FALSE
