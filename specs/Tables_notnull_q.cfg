CONSTANTS
  Names = {"t", "u"}
  MaxRows = 1
  MaxMarks = 0
  MaxIds = 99
  Ops = {"create", "insert", "update", "delete", "drop", "ctas", "insertselect", "few", "notnull"}
SPECIFICATION MCSpec
VIEW View
INVARIANTS Partition NotNull NamesApart PastLong
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
