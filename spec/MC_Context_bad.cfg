SPECIFICATION Spec
CONSTANTS
  MaxOffers = 3
  Broken = TRUE
INVARIANTS First All LastAttached

CHECK_DEADLOCK FALSE
