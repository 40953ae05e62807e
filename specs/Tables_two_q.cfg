CONSTANTS
  Names = {"t", "u"}
  MaxRows = 2
  MaxMarks = 0
  MaxIds = 99
  Ops = {"create", "insert", "update", "delete", "truncate", "vacuum", "drop", "ctas", "rename", "insertselect", "few"}
SPECIFICATION MCSpec
VIEW View
INVARIANTS Partition NotNull NamesApart PastLong
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
