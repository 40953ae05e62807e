CONSTANTS
  MaxArgs = 2
  ListTypes = {"int", "decimal", "varchar", "i64", "timestamp"}
SPECIFICATION Spec
INVARIANT EmitInv
CHECK_DEADLOCK FALSE
