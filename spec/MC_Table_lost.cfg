SPECIFICATION MSpec
CONSTANTS
  Aspects = {"colmeta", "groups", "meta", "codec"}
  MaxSnaps = 3
  Mode = "lost"
  Names = {"a", "b"}
INVARIANT Inv
CHECK_DEADLOCK FALSE
