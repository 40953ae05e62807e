CONSTANTS
  Key = {1, 2}
  Schemas = {"vw", "v"}
  Max = 2
  Again = {FALSE}
  MoveUnset = TRUE
SPECIFICATION Spec
VIEW View
INVARIANTS Sound Replay
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTRAINT Few
