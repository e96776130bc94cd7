SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  MaxOps = @MAXOPS@
INVARIANTS AtMostOnce NothingBefore OnlyForce
PROPERTIES Final Responsive
CHECK_DEADLOCK FALSE
