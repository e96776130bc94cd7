SPECIFICATION Spec
CONSTANTS
  MaxOffers = @MAX@
  Broken = FALSE
INVARIANTS First All LastAttached
PROPERTIES Sticky
CHECK_DEADLOCK FALSE
