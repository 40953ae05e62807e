CONSTANTS
  MaxArgs = 3
  ListTypes = {"int", "decimal", "varchar", "i64", "timestamp", "boolean", "date", "char"}
SPECIFICATION Spec
INVARIANT EmitInv
CHECK_DEADLOCK FALSE
