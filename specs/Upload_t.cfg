CONSTANTS
  Row = {1, 2}
  MaxOf = 3
SPECIFICATION Spec
VIEW View
PROPERTIES Inert Adds
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
