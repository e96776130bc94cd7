SPECIFICATION GSpec
CONSTANTS
  Slots = @SLOTS@
  Depth = @DEPTH@
  Names = {"n1", "n2", "n3"}
  Keys = {"k1", "k2", "k3", "k4", "k5"}
  Vals = {"v1", "v2", "v3", "v4"}
  Types = {"A", "B", "u64", "String"}
  Fmts = {"f1", "f2"}
  Places = {"boxed", "pinned"}
CHECK_DEADLOCK FALSE
