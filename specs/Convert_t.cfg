CONSTANTS
  Place = {1, 2}
  Name = {"t", "u"}
  File = {1, 2, 3}
  MaxRows = 2
SPECIFICATION Spec
VIEW View
INVARIANTS Inside Single
PROPERTIES Inert Fixed
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
