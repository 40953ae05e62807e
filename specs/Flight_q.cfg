CONSTANTS
  MaxRows = 2
  MaxTickets = 2
  Tries = 4
  Writable = {"X"}
  Together = {"plain", "path second", "inline X", "inline Y", "inline without t"}
SPECIFICATION Spec
VIEW View
PROPERTIES Fixed Kept
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
