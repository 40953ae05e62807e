CONSTANTS
  Limits = {1, 2, 3}
  MaxRows = 4
  MaxBatches = 4
  Kinds = {"s"}
  Cuts = TRUE
  Faults = {0}
  Stores = {"memory", "dir"}
SPECIFICATION Spec
INVARIANT EmitInv
CHECK_DEADLOCK FALSE
