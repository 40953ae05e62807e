CONSTANTS
  Key = {1, 2, 3, 4, 5}
  Schemas = {"vw"}
  Max = 2
  Again = {FALSE, TRUE}
  MoveUnset = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS Sound Replay
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
