CONSTANTS
  Roles = {"old", "new", "changed", "value", "bad"}
  Names = {"a", "A"}
  Types = {"int", "bool"}
  Max = 4
  Pairs = FALSE
SPECIFICATION Spec
INVARIANT EmitInv
CHECK_DEADLOCK FALSE
