SPECIFICATION MSpec
CONSTANTS
  Aspects = {"colmeta", "groups", "meta", "codec"}
  MaxSnaps = @MAX@
  Mode = "ok"
  Names = {"a", "b"}
INVARIANT Inv
CHECK_DEADLOCK FALSE
