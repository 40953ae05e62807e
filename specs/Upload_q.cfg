CONSTANTS
  Row = {1, 2}
  MaxOf = 2
SPECIFICATION Spec
VIEW View
PROPERTIES Inert Adds
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
