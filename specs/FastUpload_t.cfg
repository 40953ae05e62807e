SPECIFICATION Spec
CONSTANTS Contents={"empty","small","large"} Paths={"t","d/t","d/e/t"} DirKinds={"absent","dir","ro","file"} MaxUsed=2 Limits=FALSE
PROPERTIES NothingLost
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
