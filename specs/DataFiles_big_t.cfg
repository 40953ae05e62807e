CONSTANTS
  Limits = {1, 2, 9}
  MaxRows = 2
  MaxBatches = 3
  Kinds = {"s", "b"}
  Cuts = FALSE
  Faults = {0}
  Stores = {"memory", "dir"}
SPECIFICATION Spec
INVARIANT EmitInv
CHECK_DEADLOCK FALSE
