CONSTANTS
  Names = {"t", "u"}
  MaxRows = 1
  MaxMarks = 2
  MaxIds = 2
  Ops = {"create", "insert", "delete", "truncate", "vacuum", "drop", "ctas", "rename", "mark", "few"}
SPECIFICATION MCSpec
VIEW View
INVARIANTS Partition NotNull NamesApart PastLong
PROPERTY PastKept
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
