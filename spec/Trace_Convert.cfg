SPECIFICATION TSpec
CONSTANTS
  Aspects = @ASPECTS@
CONSTRAINT Furthest
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
