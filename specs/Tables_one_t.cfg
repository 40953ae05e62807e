CONSTANTS
  Names = {"t"}
  MaxRows = 3
  MaxMarks = 0
  MaxIds = 99
  Ops = {"create", "insert", "update", "delete", "truncate", "vacuum", "drop", "upload"}
SPECIFICATION MCSpec
VIEW View
INVARIANTS Partition NotNull NamesApart PastLong
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
