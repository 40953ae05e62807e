CONSTANTS
  Roles = {"old", "new", "changed", "value"}
  Names = {"a", "A"}
  Types = {"int", "bool"}
  Max = 5
  Pairs = FALSE
SPECIFICATION Spec
INVARIANT EmitInv
CHECK_DEADLOCK FALSE
