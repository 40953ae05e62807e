CONSTANTS
  Roles = {"old", "new", "changed", "value"}
  Names = {"a", "A"}
  Types = {"int", "text", "bool"}
  Max = 4
  Pairs = TRUE
SPECIFICATION Spec
INVARIANT EmitInv
CHECK_DEADLOCK FALSE
