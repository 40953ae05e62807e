CONSTANTS
  Keys = 3
  Max = 4
  Squash = TRUE
  Restart = FALSE
  Starts = {0, 1, 2, 3}
SPECIFICATION Spec
INVARIANT EmitInv
CHECK_DEADLOCK FALSE
