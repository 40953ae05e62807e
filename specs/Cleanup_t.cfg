CONSTANTS
  Uuid = {"u1", "u2", "u3", "u4"}
  Live = {"u3"}
  DB = {"default", "other"}
  Faults = {"list", "listmid", "delete"}
SPECIFICATION Spec
VIEW View
INVARIANT Safe
PROPERTIES OnlyDropped ForgottenLast Heals OtherDatabases
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
