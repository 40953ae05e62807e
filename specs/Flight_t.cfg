CONSTANTS
  MaxRows = 2
  MaxTickets = 3
  Tries = 12
  Writable = {"X", "second"}
  Together = {"plain", "path second", "inline X", "inline Y", "inline without t"}
SPECIFICATION Spec
VIEW View
PROPERTIES Fixed Kept
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
