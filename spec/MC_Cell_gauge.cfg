SPECIFICATION Spec
CONSTANTS
  Base = 3
  NLimbs = 1
  Threads = {1, 2, 3}
  Kind = "gauge"
  Tallied = FALSE
  Args <- MCArgs
  MaxOps = @MAXOPS@
INVARIANTS TypeOK Conservation
PROPERTIES OneAtATime Responsive
CHECK_DEADLOCK FALSE
