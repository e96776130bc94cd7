SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2}
  MaxOps = @MAXOPS@
INVARIANTS LastGiven ParseBack
CHECK_DEADLOCK FALSE
