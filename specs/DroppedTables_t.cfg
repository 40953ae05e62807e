SPECIFICATION Spec
CONSTANTS
 Uuid={"u1","u2","u3","u4"} DB={"d1","d2"} Status={"PENDING","RETRY","FAILED"}
INVARIANTS TypeOK
PROPERTIES OnlyNamed NoLoss
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
